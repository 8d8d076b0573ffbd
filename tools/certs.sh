#!/bin/bash
# makes driver/certs: authorities, and the certificates peers show (run once; the results are committed)
set -e
D=$(cd "$(dirname "$0")/../driver/certs" && pwd)
W=$(mktemp -d)
cd "$W"
NOW=200101000000Z FAR=21200101000000Z
touch index.txt; echo 1000 > serial
cat > ca.cnf <<X
[ca]
default_ca=d
[d]
dir=$W
new_certs_dir=$W
database=$W/index.txt
serial=$W/serial
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[req]
distinguished_name=dn
[dn]
X
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"; }
# make NAME SIGNER CA? FROM TO SAN
make() {
  key "$1"
  openssl req -new -key "$1.key" -subj "/CN=$1" -config ca.cnf -out "$1.csr"
  { echo "[x]"; if [ "$3" = ca ]; then echo "basicConstraints=critical,CA:TRUE"; echo "keyUsage=critical,keyCertSign,cRLSign"; else echo "basicConstraints=critical,CA:FALSE"; echo "keyUsage=digitalSignature"; echo "extendedKeyUsage=serverAuth"; fi; [ -n "$6" ] && echo "subjectAltName=$6"; echo "subjectKeyIdentifier=hash"; } > "$1.ext"
  if [ "$2" = self ]; then openssl ca -batch -notext -selfsign -keyfile "$1.key" -config ca.cnf -in "$1.csr" -startdate "$4" -enddate "$5" -extfile "$1.ext" -extensions x -out "$1.crt" 2>/dev/null
  else openssl ca -batch -notext -keyfile "$2.key" -cert "$2.crt" -config ca.cnf -in "$1.csr" -startdate "$4" -enddate "$5" -extfile "$1.ext" -extensions x -out "$1.crt" 2>/dev/null; fi
}
P=20200101000000Z F=21200101000000Z
make root self ca $P $F
make rogue self ca $P $F
make inter root ca $P $F
make interold root ca $P 20210101000000Z
make interrogue rogue ca $P $F
SAN=DNS:alpha.test,DNS:beta.test,DNS:*.wild.test,IP:127.0.0.1,IP:127.0.0.2
make good root leaf $P $F $SAN
make expired root leaf $P 20210101000000Z $SAN
make future root leaf 21100101000000Z $F $SAN
make other root leaf $P $F DNS:other.test,DNS:alpha.test.evil.test,DNS:alpha.tes,IP:127.0.0.9
make subwild root leaf $P $F "DNS:*.alpha.test,DNS:*.test.example"
make unknown rogue leaf $P $F $SAN
make self self leaf $P $F $SAN
make viainter inter leaf $P $F $SAN
make viaold interold leaf $P $F $SAN
make viarogue interrogue leaf $P $F $SAN
make vialeaf good leaf $P $F $SAN
make nonames root leaf $P $F ""
for n in good expired future other subwild unknown self nonames; do cat $n.crt > $D/$n.pem; cat $n.key > $D/$n.key; done
for n in viainter; do cat $n.crt inter.crt > $D/$n.pem; cp $n.key $D/$n.key; cat $n.crt > $D/missing.pem; cp $n.key $D/missing.key; done
cat viaold.crt interold.crt > $D/viaold.pem; cp viaold.key $D/viaold.key
cat viarogue.crt interrogue.crt > $D/viarogue.pem; cp viarogue.key $D/viarogue.key
cat viarogue.crt interrogue.crt rogue.crt > $D/wholerogue.pem; cp viarogue.key $D/wholerogue.key
cat vialeaf.crt good.crt > $D/vialeaf.pem; cp vialeaf.key $D/vialeaf.key
# forged: the root's name as issuer, but not its signature
openssl req -new -key rogue.key -subj "/CN=root" -config ca.cnf -out imp.csr
printf '[x]\nbasicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\n' > imp.ext
openssl ca -batch -notext -selfsign -keyfile rogue.key -config ca.cnf -in imp.csr -startdate $P -enddate $F -extfile imp.ext -extensions x -out imp.crt 2>/dev/null
key forged; openssl req -new -key forged.key -subj "/CN=forged" -config ca.cnf -out forged.csr
openssl ca -batch -notext -keyfile rogue.key -cert imp.crt -config ca.cnf -in forged.csr -startdate $P -enddate $F -extfile good.ext -extensions x -out forged.crt 2>/dev/null
cat forged.crt > $D/forged.pem; cp forged.key $D/forged.key
cat forged.crt imp.crt > $D/forged2.pem; cp forged.key $D/forged2.key
cat root.crt > $D/root.pem; cat root.crt rogue.crt > $D/both.pem
rm -rf "$W"

#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
sys.dont_write_bytecode = True
TR = "TLA+ specification checked with TLC; recordings of the real binary validated against it by TLC"
NOTES = {
 "C01": "MCGrammar shows that the specified grammar reads back all trees of up to three operators from their minimal-parenthesis rendering; the binary's answers to every operator pair (with operands that tell the groupings apart, found by TLC), postfix/prefix combinations and random expressions in several layouts are validated by TLC against the specified grammar and evaluator. Exhaustive over operator pairs, random beyond; trusts TLC and the specification.",
 "C02": "All token strings up to length 3 over a 35-token alphabet (thorough: 4 over the core alphabet), edited valid programs and random texts, as REPL line, eval text, source file and response body; every answer (value or error) is validated by TLC. Three known findings: stack overflow on very deep nesting.",
 "C03": "MCNum checks the specified arithmetic (exact integers, IEEE doubles, all from first principles) against laws; the binary's result for operators on pairs of a 66-value boundary pool and random operands is validated by TLC. Quick samples the pairs, thorough takes all.",
 "C04": "Conditions, operands and blocks built from leaves that print, bind, fail or send: all pairs, sampled triples (thorough: all) and random trees; output, later bindings and requests on the wire validated by TLC.",
 "C05": "MCRepl checks the session properties over all sessions of up to three of 15 lines; the binary's answers in all sessions of one or two and sampled (thorough: all) of three of 25 lines, random long sessions, and sessions with requests are validated by TLC.",
 "C06": "All container/index/argument combinations of a pool and random aliasing sessions, validated by TLC.",
 "C07": "Templates composed of placeholder-like pieces (all singles, sampled or all pairs, random longer) through format, print, println and through requests, where the bytes that reach the server are compared, validated by TLC.",
 "C08": "", "C09": "", "C10": "", "C11": "", "C12": "", "C13": "", "C14": "", "C15": "", "C16": "", "C17": "", "C18": "", "C19": "", "C20": "", "C21": "", "C22": "",
}
import checks_lang
have = set(checks_lang.CHECKS)
for m in ("checks_http", "checks_run", "checks_more"):
    if os.path.exists(os.path.join(V, "driver", m + ".py")):
        have |= set(__import__(m).CHECKS)
        NOTES.update(__import__(m).NOTES)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in have:
        checks.append({"property": p, "quick_cmd": "python3 driver/check.py %s" % p, "thorough_cmd": "python3 driver/check.py %s --thorough" % p,
                       "technique": TR, "level": "model_checking", "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 driver/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the binary is observed from outside (standard streams, wire, record files, LD_PRELOAD shim)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "open")

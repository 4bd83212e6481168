#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01":("exhaustive enumeration of line sequences, header and posting lines and dates, run on the real program against a reference state machine",""),
"C02":("exhaustive enumeration of posting-amount vectors in every context, real program against a reference model",""),
"C03":("exhaustive enumeration of amount strings and of quantities, real program against the reference grammar and arithmetic",""),
"C04":("exhaustive enumeration of short hostile strings, lines, filters and dates in every position; crash, hang and internal-failure monitor on the real program",""),
"C05":("exhaustive enumeration of posting histories over hazardous account sets, real program against sums by definition",""),
"C06":("exhaustive enumeration of the balances of every node of account trees, real program against the definition of what is shown",""),
"C07":("exhaustive enumeration of account sets times layout flags, real program against reference renderings of one tree",""),
"C08":("exhaustive enumeration of transactions and line sequences; print output fed back to the real program and to the reference reading",""),
"C09":("exhaustive enumeration of date sequences up to and beyond the sort's thresholds, real program against a stable order",""),
"C10":("exhaustive enumeration of bounds, transaction days, time zones and clock values (controlled clock), real program against calendar comparison",""),
"C11":("exhaustive enumeration of date components and date-like strings, real program against the reference grammar and calendar",""),
"C12":("exhaustive enumeration of filter lists and transaction shapes, real program against matching by definition",""),
"C13":("exhaustive enumeration of small include graphs, real program against textual replacement",""),
"C14":("exhaustive enumeration of budget histories, real program against the budget by definition",""),
"C15":("exhaustive enumeration of transaction histories and spans, real program against counts by definition",""),
"C16":("exhaustive enumeration of income and spending calendars, real program against first-in-first-out matching by definition",""),
"C17":("exhaustive enumeration of name sets and filter lists, real program against the reference lists",""),
"C18":("deviation-bounded exploration of every map-iteration start of every run of the real program under a controlled runtime",""),
"C19":("enumeration of every split and every read failure of a journal's bytes, injected into the real parser",""),
"C20":("exhaustive enumeration of errors, positions and include chains, real program against the reference location",""),
"C21":("explicit-state exploration of the real account hierarchy under operation sequences, every state compared with a set of paths",""),
"C22":("exhaustive enumeration of sizes around every capacity and of buffer alignments, real program against the reference model",""),
"C23":("exhaustive enumeration of flag, environment and file-system configurations, each a process of the real binary",""),
"C24":("exhaustive enumeration of journals, ranges and splits; the real program's reports compared with each other",""),
}
NOTE = {
"C18":"Complete for the schedules named in the evidence: maps of up to 8 entries from every slot, one deviation (quick) or two (thorough). The order of larger maps also depends on a per-map hash seed, which is left free and covered only by repeated runs.",
"C19":"Complete for one fault per read of the journals named in the evidence. Faults inside included files (read from the operating system) are not injected.",
"C14":"Complete within the bounds of the evidence, except the known finding: periods that are not a month (the eight listed keys).",
}
NOTE_ALL = "Complete within the bounds stated in the evidence; says nothing about inputs outside them. Trusts the reference model in mc/ (written from the property, not from the code), Go's own library, and, for in-process runs, that one process may run many commands, which is checked by repeating a share of all items and every failure in fresh processes of the real binary."
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd=f"bash run.sh {p} quick", thorough_cmd=f"bash run.sh {p} thorough",
        evidence_file=f"evidence/{p}.json", technique="model checking: "+T[p][0],
        level="fault_enumeration" if p=="C19" else "model_checking", level_note=(NOTE.get(p,"")+" "+NOTE_ALL).strip()))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
  notes="Every check builds its own binaries from /repo's current tree into a scratch directory it removes. There are no hooks in /repo: the clock, map iteration order and process exit are controlled by a compiler overlay of the standard library (build.sh). known_findings.txt lists the repaired and the known defects.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w"), indent=1, ensure_ascii=False)

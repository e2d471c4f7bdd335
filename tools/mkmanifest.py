"""Writes MANIFEST.json: which properties are claimed, and how."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "machine model checked by TLC; recorded runs of the real code replayed step by step in it"
HOW = {
    "C01": RUN, "C02": RUN, "C03": RUN + "; best-first search model", "C04": RUN + "; best-first search model",
    "C05": RUN, "C06": RUN, "C07": RUN + ", with termination as a temporal property",
    "C09": "two interleaved machines model checked by TLC; recorded runs of the real code under chosen schedules judged against it",
    "C10": "ambiguity windows model checked by TLC; real verdicts judged against them",
    "C11": "ambiguity windows model checked by TLC; real verdicts judged against them",
    "C08": "lifecycle model checked by TLC; histories it generates run on the real code and judged",
    "C12": "lifecycle model checked by TLC; histories it generates run on the real code and judged",
    "C13": "lifecycle and version models checked by TLC; real loads judged against them",
    "C14": "settings being edited model checked by TLC; real builds from documents judged against it",
    "C15": "notation model checked by TLC; what the real code reads from text judged against it",
    "C16": "reading head model checked by TLC; settings read from real YAML judged against it",
    "C17": "lifecycle model checked by TLC; histories it generates run on the real code and judged",
    "C18": "search on the prefix tree model checked by TLC; recorded graphs judged against the prefix tree",
    "C19": "coverage machine model checked by TLC; recorded histories judged against it",
    "C20": "directed graph model checked by TLC; histories it generates run on the real code and judged",
    "C21": "register of transliterators model checked by TLC; recorded histories of adding, loading and testing judged against it",
    "C22": "commands model checked by TLC; real command lines judged against what the library returns",
    "C23": "test generation model checked by TLC; tests the real code generates judged against it",
    "C24": "lifecycle model checked by TLC; histories it generates run on the real code and judged",
    "C25": "ordering of rules model checked by TLC; recorded builds of the real code judged against it",
}
NOTE = {
    "default": "Exhaustive within the small constants of the design model; the real code is bound by "
               "seeded sessions judged by TLC, so a deviation that no generated session reaches is missed.",
}
REASON = "check under construction"


def main():
    with open(os.path.join(V, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f if x.strip()]
    m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": [], "not_applicable": []}
    for i in ids:
        if i in HOW:
            m["checks"].append({
                "property": i, "quick_cmd": "python3 check.py " + i,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "TLA+: " + HOW[i], "level": "model_checking",
                "level_note": NOTE.get(i, NOTE["default"])})
        else:
            m["not_applicable"].append({"property": i, "reason": REASON})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

#!/usr/bin/env python3
"""The properties, and how each is decided.  `python3 tools/meta.py` writes properties.jsonl and
MANIFEST.json from this table; `run` takes the bounds and assumptions of an evidence file from it."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

LIBRARY = [
    "The code checked is /repo's library without its semantic_info parser, which needs a crate that is not in this sandbox.",
]
FULL = [
    "The code checked is /repo's library and program. The peginator crate, which is not in this sandbox, is replaced by the stand-in in peginator/, written from its documentation and shown faithful by all 376 tests of the repository (the 270 semantic examples are part of the exploration).",
]
COMMON = [
    "Nothing is claimed about values outside the enumerated alphabets and bounds.",
]


def P(id, title, statement, over, text, why, files, mechanism, technique, note, quick, thorough,
      claimed=True, reason="", assumptions=(), observe=(), level="model_checking", semantic=False):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=mechanism, technique=technique, note=note, bounds=dict(quick=quick, thorough=thorough),
        claimed=claimed, reason=reason, assumptions=(FULL if semantic else LIBRARY) + COMMON + list(assumptions), observe=list(observe), level=level))


from props import define  # noqa: E402

define(P)
BY_ID = {p["id"]: p for p in PROPS}


def main():
    with open(f"{ROOT}/properties.jsonl", "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            anchors["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": f"./run {p['id']} quick", "thorough_cmd": f"./run {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
            for p in PROPS if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
    }
    with open(f"{ROOT}/MANIFEST.json", "w", encoding="utf-8") as f:
        json.dump(manifest, f, ensure_ascii=False, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Lays out build/view: /repo's hun_law library without what needs the peginator crate,
which is not in this sandbox (the same cut as the one the repository's own test run here uses).

Everything is copied from /repo's working tree, except:
  Cargo.toml          without [workspace], the hun_law_grammar dependency and the test targets
  src/parser/mod.rs   without "mod semantic_info;"
  src/bin/**          goes to build/view/bin (the harness compiles fixup_editor.rs as a module)
build/full/repo is the whole of it (without tests), for the checks of the semantic parser and the program. There
hun_law_grammar finds the stand-in of ../peginator at build/full/peginator.

Files are rewritten only when their text changes: cargo sees every change by its mtime, and
rebuilds only then, whatever mtimes /repo's files have."""
import os, re, shutil, sys

REPO = "/repo"
VIEW = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "view")
FULL = os.path.join(os.path.dirname(VIEW), "full")
OMIT = {"src/parser/semantic_info", "src/bin"}
TOP = {"Cargo.toml", "build.rs", "src", "data"}


def drop_mod(text, names):
    return re.sub(rf"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+({'|'.join(names)})\s*;[^\n]*\n?", "", text)


def manifest(text, full=False):
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[\[(test|bin|bench|example)\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[profile[^\]]*\]\n.*?(?=^\[|\Z)", "", text)
    return text if full else re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", text)


GENERATED = {
    "Cargo.toml": manifest,
    "src/parser/mod.rs": lambda t: drop_mod(t, ["semantic_info"]),
}


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def write(path, data):
    if os.path.isfile(path) and not os.path.islink(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    else:
        remove(path)
    with open(path, "wb") as f:
        f.write(data)


def layout(src_rel, dst_rel, view, top=(), omit=(), generated={}, keep=()):
    """Copies a folder of /repo; at the top (`top` given) only the names in it."""
    src, dst = os.path.join(REPO, src_rel), os.path.join(view, dst_rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = {os.path.basename(k) for k in keep if os.path.dirname(k) == dst_rel}
    for name in os.listdir(src):
        r, d = os.path.join(src_rel, name), os.path.join(dst_rel, name)
        if r in omit or d in keep or (top and name not in top):
            continue
        names.add(name)
        if os.path.isdir(os.path.join(REPO, r)):
            layout(r, d, view, (), omit, generated, keep)
            continue
        with open(os.path.join(REPO, r), "rb") as f:
            data = f.read()
        if r in generated:
            data = generated[r](data.decode("utf-8")).encode("utf-8")
        write(os.path.join(view, d), data)
    for name in os.listdir(dst):
        if name not in names:
            remove(os.path.join(dst, name))


def main():
    layout("", "", VIEW, TOP, OMIT, GENERATED, {"bin"})
    layout("src/bin", "bin", VIEW)


def full():
    layout("", "", f"{FULL}/repo", TOP | {"hun_law_grammar"}, {"hun_law_grammar/src/grammar_generated.rs"},
           {"Cargo.toml": lambda t: manifest(t, True)}, {"hun_law_grammar/src/grammar_generated.rs"})
    link = f"{FULL}/peginator"
    if not os.path.islink(link):
        os.symlink("../../peginator", link)


if __name__ == "__main__":
    main()
    full()

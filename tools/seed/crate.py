"""crate.py REPO DEST: copies the hun_law library without what needs the peginator crate."""
import os, re, shutil, sys
repo, dest = sys.argv[1:3]
os.makedirs(dest)
shutil.copytree(f"{repo}/src", f"{dest}/src", ignore=lambda d, n: {"semantic_info"} & set(n) if d.endswith("/parser") else set())
shutil.move(f"{dest}/src/bin", f"{dest}/bin")
shutil.copy(f"{repo}/build.rs", f"{dest}/build.rs")
t = open(f"{repo}/Cargo.toml", encoding="utf-8").read()
for pat in (r"\[workspace\]", r"\[\[(?:test|bin|bench|example)\]\]", r"\[dev-dependencies\]", r"\[profile[^\]]*\]"):
    t = re.sub(rf"(?ms)^{pat}\n.*?(?=^\[|\Z)", "", t)
t = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", t)
open(f"{dest}/Cargo.toml", "w", encoding="utf-8").write(t + "\n[workspace]\n")
p = f"{dest}/src/parser/mod.rs"
t = open(p, encoding="utf-8").read()
t = re.sub(r"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+semantic_info\s*;[^\n]*\n?", "", t)
open(p, "w", encoding="utf-8").write(t)

#!/usr/bin/env python3
"""Regenerates the forwarding headers under shim/nil and shim/boost.

Every header of the field library which the sources or tests of the repository mention gets a file which
includes the single umbrella header. Run by hand after the repository starts to include a new header.
"""
import os, re, subprocess, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("VERIF_REPO", "/repo")
out = subprocess.run(["grep", "-rhoE", r"#include <(nil/(crypto3|marshalling|actor)|boost/multiprecision/cpp_int_modular)[^>]*>",
                      repo + "/include", repo + "/test"], capture_output=True, text=True).stdout
extra = ["boost/multiprecision/cpp_int_modular.hpp", "nil/crypto3/multiprecision/cpp_int_modular.hpp"]
special = {}
n = 0
for name in sorted(set(re.findall(r"<([^>]*)>", out)) | set(extra)):
    if "/zk/components/" in name or "/zk/blueprint/" in name or "/zk/assignment/" in name:
        continue    # names of an older layout of this repository itself; those files do not compile anywhere
    path = os.path.join(root, "shim", name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = "#pragma once\n\n#include <vp/all.hpp>\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    n += 1
print(n, "headers")

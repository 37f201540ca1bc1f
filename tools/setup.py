#!/usr/bin/env python3
"""Sandbox sanity: the tools the checks need are present. Checks build what they run themselves."""
import shutil, subprocess, sys
for t in ("cargo", "rustc", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
print(subprocess.run(["cargo", "--version"], capture_output=True, text=True).stdout.strip())

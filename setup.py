"""Checks that the tools the checks need are there (nothing to build: specifications and drivers are interpreted)."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import tlc
assert os.path.exists(tlc.JAR.split(":")[0])
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)

"""Writes MANIFEST.json from properties.jsonl and the check classes that exist."""
import importlib, json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(here, "gwv", "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="its monitor is still being written"))
        continue
    mod = importlib.import_module(f"gwv.checks.{pid.lower()}")
    cls = mod.CheckImpl
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check.sh {pid} quick",
        thorough_cmd=f"./check.sh {pid} thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=getattr(cls, "technique", "runtime monitoring: call-by-call oracle over recorded executions of the real code under generated and hostile workloads"),
        level=cls.level,
        level_note=" ".join((cls.rule + " Holds for the executions observed, whose number and diversity the evidence file reports. Assumes: " + "; ".join(cls.assumptions)).split()),
    ))
json.dump(dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=na,
    notes="No hooks in /repo: monitors observe through the public interface, entry points and sys-level hooks installed from /verif.",
), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

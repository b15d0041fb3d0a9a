#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from driver/config.py and properties.jsonl."""
import json, os, sys, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "driver"))
import config
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=verification hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(version=1,
    setup_cmd="sh -c 'cd harness && (OPENSSL_NO_VENDOR=1 RUSTFLAGS=\"--cfg quic_sea_verif\" cargo build --offline --target-dir ../target || RUSTFLAGS=\"--cfg quic_sea_verif\" cargo build --offline --target-dir ../target)'",
    hooks=dict(guard="quic_sea_verif", enable="RUSTFLAGS=\"--cfg quic_sea_verif\" (a cfg flag; driver/tools.py sets it when it builds harness/)", source_commits=hook),
    checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                 technique=config.PROPERTIES[i]["technique"], level="model_checking", level_note=config.PROPERTIES[i]["level_note"])
            for i in ids if i in config.PROPERTIES],
    not_applicable=[dict(property=i, reason=config.NOT_APPLICABLE.get(i, "not claimed yet: the check is being built")
                         if hasattr(config, "NOT_APPLICABLE") else "not claimed yet: the check is being built")
                    for i in ids if i not in config.PROPERTIES])
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")

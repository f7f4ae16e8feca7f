"""Writes MANIFEST.json from properties.jsonl and what the harness knows (harness list)."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(subprocess.check_output([root + '/harness/target/release/harness', 'list'], text=True).split())
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": n[0], "level": "exploration", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg relp_verif"], text=True).split()
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "cfg(relp_verif)", "enable": "harness/.cargo/config.toml passes --cfg relp_verif to rustc", "source_commits": hook}, "checks": checks, "not_applicable": na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(na), "not")

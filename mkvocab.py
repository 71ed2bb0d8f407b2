"""Regenerates sa/vocabulary.json: the functions, locals and constants of the reviewed tree (/repo HEAD)."""
import ast, json, os
from pathlib import Path
from sa.normal import make_vocabulary, VOCAB
repo = Path(os.environ.get("VERIF_REPO", "/repo"))
trees = {}
for p in sorted((repo / "dascore").rglob("*.py")):
    parts = list(p.relative_to(repo).with_suffix("").parts)
    trees[".".join(parts[:-1] if parts[-1] == "__init__" else parts)] = ast.parse(p.read_text())
VOCAB.write_text(json.dumps(make_vocabulary(trees), separators=(",", ":"), sort_keys=True) + "\n")

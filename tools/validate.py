"""Validates properties.jsonl and MANIFEST.json (run with python3-vt)."""
import json
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
from pathlib import Path
for f in Path('/verif/evidence').glob('*.json'):
    jsonschema.validate(json.loads(f.read_text()), e)
print("valid")

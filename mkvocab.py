#!/usr/bin/env python3
"""specs/vocabulary.json: identifiers used by /repo's unchanged tree and by the reference definitions (run once on the unchanged tree)."""
import ast, glob, json
s = set()
for f in glob.glob('/repo/src/craterstats/**/*.py', recursive=True) + glob.glob('/verif/specs/*.py'):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Name):
            s.add(n.id)
        elif isinstance(n, ast.Attribute):
            s.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, ast.alias):
            s.add(n.name.rsplit('.', 1)[-1])
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            s.add(n.value)
json.dump(sorted(s), open('/verif/specs/vocabulary.json', 'w'), indent=0)

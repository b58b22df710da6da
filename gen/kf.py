#!/usr/bin/env python3
"""Writes known_findings.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = [
 ("C05","Select_stmt|From()[].IsTableName(x) [select core]","FROM items that are no plain table are dropped: SELECT * FROM (SELECT 1), t"),
 ("C05","Select_stmt|Limit().Limit() [LIMIT that is not a number]","LIMIT with something else than a number is read as no limit: SELECT * FROM t LIMIT ?"),
 ("C05","Select_stmt|clause dropped: DISTINCT","DISTINCT is dropped: SELECT DISTINCT a FROM t"),
 ("C05","Select_stmt|clause dropped: HAVING","HAVING is dropped: SELECT a FROM t GROUP BY a HAVING a > 1"),
 ("C05","Select_stmt|clause dropped: JOIN","joined tables are dropped: SELECT * FROM a JOIN b"),
 ("C05","Select_stmt|clause dropped: WINDOW","WINDOW is dropped: SELECT a FROM t WINDOW w AS (ORDER BY a)"),
 ("C05","Select_stmt|clause dropped: WITH","WITH is dropped: WITH c AS (SELECT 1) SELECT * FROM c"),
 ("C05","Select_stmt|clause dropped: compound operator","all but the first SELECT of a compound are dropped: SELECT a FROM t UNION SELECT b FROM u"),
 ("C05","Select_stmt|clause dropped: second GROUP BY key","GROUP BY keys after the first are dropped: SELECT a FROM t GROUP BY a, b"),
 ("C09","Select_stmt|Where().HasConditions() [other condition]","SELECT conditions other than a comparison, AND or OR are dropped: SELECT * FROM t WHERE a LIKE 'x'"),
]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"kf_fixed.py")).read())
with open(os.path.join(root,"known_findings.jsonl"),"w") as f:
    f.write("# genuine defects: listed ones are recorded, not repaired; 'fixed:' ones are repaired in /repo and suppress nothing\n")
    for p,k,w in K: f.write(json.dumps({"status":"known","property":p,"key":k,"what":w})+"\n")
    for l in FIXED: f.write("fixed: "+l+"\n")

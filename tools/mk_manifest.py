"""Regenerates MANIFEST.json, the fixed entries of known_findings.json and the wording of some properties."""
import json,subprocess,re
V='/verif/'
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%H %s'],text=True).splitlines()
M={'errors of the operator stack':('P37','SELECT a FROM t WHERE = 3: "Expected expression before here" was reported at the 3'),
'accept RIGHT JOIN after the ON':('P23','SELECT a FROM t JOIN u ON a = b RIGHT JOIN v was rejected'),
 'ORDER BY and LIMIT after the last SELECT':('P36','SELECT a UNION SELECT b ORDER BY c LIMIT 1 sorted and cut off SELECT b only'),
 'reject UNION after ORDER BY':('P36','SELECT a ORDER BY b UNION SELECT c was accepted'),
 'report WINDOW, which':('P35','SELECT a FROM t WINDOW was accepted'),
 'reject ON DELETE DELETE':('P35','CREATE TABLE .. FOREIGN KEY .. ON DELETE DELETE was accepted'),
 'name SELECT in the message':('P33',"the message about a missing query asked for 'SELECET'"),
 'accept the functions INSERT and REPEAT':('P23','SELECT INSERT ( a , 1 , 2 , b ) and SELECT REPEAT ( a , 3 ) were rejected'),
 'report a hexadecimal literal':('P01','SELECT 0x1 panicked'),
'report an argument number':('P01','SELECT $99999999999999999999 overflowed (panic with overflow checks, wrong number without)'),
'stop at the end of the text after DELIMITER':('P02','DELIMITER at the end of the text looped for ever'),
'decode doubled quotes':('P09',"'it''s' and 'a\\n' kept the quotes doubled and the escapes undecoded"),
'AND binds tighter than XOR':('P08','a OR b AND c nested as (a OR b) AND c; XOR bound like OR'),
'the names of << and >>':('P06','messages about << and >> named the other operator'),
'warn about unquoted identifiers':('P18','with warn_unquoted_identifiers a reserved word was only a warning and a name an error'),
'do not ask for ALL CAPS':('P18','with warn_none_capital_keywords keywords in capitals with an underscore or digit got a warning'),
'reject quoted identifiers in postgresql':('P17','a backtick identifier was accepted in PostgreSQL in qualified names'),
'reject a float':('P10','1e999 became infinity'),
'the span of a select':('P05','the locking clause lay outside the span of the select'),
'the span of DROP TABLE':('P05','CASCADE lay outside the span of DROP TABLE'),
'the span of an insert':('P05','the columns lay outside the span of an insert'),
'the span of CREATE FUNCTION':('P05','the parameters and RETURNS lay outside the span of CREATE FUNCTION'),
'the span of CREATE INDEX':('P05','IF NOT EXISTS lay outside the span of CREATE INDEX'),
'the span of NATURAL':('P05','NATURAL lay outside the span of the join type'),
'accept SET DEFAULT':('P23','ON DELETE SET DEFAULT was rejected'),
'record NO ACTION':('P06','NO ACTION was recorded as another action'),
'record the type of SPATIAL':('P06','the type of a SPATIAL or UNIQUE index was not the one written'),
'accept ADD UNIQUE':('P23','ALTER TABLE t ADD UNIQUE (a) was rejected'),
'record COLLATE':('P06','COLLATE on a type was recorded as a character set'),
'a trigger that fails':('P14','after a trigger that fails to parse, compound statements stayed permitted'),
'END ends the enclosing':('P29','END was taken as a statement outside triggers'),
'accept a block as the body':('P23','CREATE FUNCTION .. BEGIN .. END was rejected'),
'a case statement ends':('P29','CASE .. END without CASE, and END CASE rejected'),
'a WITH block':('P21','a WITH block that fails to parse became a BEGIN statement'),
'INTERSECT is':('P20','INTERSECT was accepted as a name in places'),
'accept quoted table names':('P20','"t" was rejected as a table name in PostgreSQL'),
'the span of a block':('P05','the span of a block was that of its statements'),
'accept NOT DETERMINISTIC':('P23','RETURNS INT NOT DETERMINISTIC was rejected'),
'report TEMPORARY':('P07','DROP TEMPORARY VIEW a dropped TEMPORARY silently'),
'report CONSTRAINT before':('P07','ALTER TABLE t ADD CONSTRAINT c COLUMN a INT dropped CONSTRAINT c silently'),
'the span of CREATE TABLE does not':('P04','the span of CREATE TABLE without a name started at byte 0'),
'report a malformed token':('P19','a malformed token after DELIMITER was skipped silently'),
'accept NULL after':('P23','CREATE TABLE t (a INT DEFAULT 1 NULL) was rejected'),
'a mistake in the width of NUMERIC':('P34','CREATE TABLE t (a INT, b NUMERIC(20), c TEXT) lost everything after the mistake in b'),
'reject & after the number in LIMIT':('P22','SELECT a FROM t LIMIT 1 & 2 was accepted'),
'do not record a made-up span':('P14','ALTER TABLE t ADD INDEX i (a ()) recorded the span 0..0 for the length'),
}
fixed=[];used=set()
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[k for k in M if s[5:].startswith(k)]
    if not k: print('UNMAPPED',s); continue
    assert len(k)==1,(s,k)
    used.add(k[0])
    fixed.append('fixed: property=%s %s %s'%(M[k[0]][0],h[:12],M[k[0]][1]))
print(set(M)-used)
kf=json.load(open(V+'known_findings.json')); kf['fixed']=fixed
json.dump(kf,open(V+'known_findings.json','w'),indent=1); open(V+'known_findings.json','a').write('\n')
# properties
P=[json.loads(l) for l in open(V+'properties.jsonl')]
R={'P20':"An identifier in the tree has as value its text without the quotes. A reserved word used unquoted as an identifier is reported as an error at that word; quoted identifiers, and unquoted words that are not reserved, are accepted without an error wherever a plain identifier is expected.",
'P22':"A text whose parentheses do not balance, that lacks the closing word of a block or CASE or a part that its statement requires, or that has a stray extra token after a complete statement, always yields an error-level issue.",
'P27':"For a text that is one statement, parsing it as a single statement and as a one-element list yields the same tree and the same errors about it; in a list the statement is followed by the delimiter, and leaving that out changes nothing but that its absence is reported.",
'P17':"A construct that the parser supports only for one dialect (dollar-quoted bodies, RETURNING/ON CONFLICT forms, double-quoted identifiers, PostgreSQL-only DDL clauses, MariaDB-only clauses) is accepted without an error only when that dialect is selected; for everything else the dialect changes neither tree nor errors (apart from the type that REAL stands for).",
'P29':"BEGIN, IF and CASE statements contain exactly the statements written between their opening and closing words, in order and at the right nesting level. BEGIN opens a block only inside routine bodies and statement lists; as a statement of its own it starts a transaction.",
'P12':"Changing the letter case of keywords and built-in function names in a text changes neither the tree nor the reported errors; only the optional capitalisation warning may depend on it. (The word given to DELIMITER is an exception: it is a token taken as written.)",
}
for p in P:
    if p['id'] in R: p['statement']=R[p['id']]
open(V+'properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
hooks=[l.split()[0] for l in log if 'Verification hooks' in l]
import sys; sys.path.insert(0,V); import props
man=dict(version=1,setup_cmd='python3 check.py --build',hooks=dict(guard='cfg(sqlparse_verif)',enable='RUSTFLAGS=--cfg sqlparse_verif',source_commits=hooks),
 checks=[dict(property=p['id'],quick_cmd='python3 check.py '+p['id'],thorough_cmd='VERIF_TIER=thorough python3 check.py '+p['id'],evidence_file='evidence/%s.json'%p['id'],technique='bounded symbolic execution of the LLVM IR of /repo with SMT (z3); counterexamples replayed natively',level='model_checking',
 level_note='Shows the property for all values of the symbolic parts within the bounds: '+props.PROPS[p['id']]['bounds']+'. Trusts the executor (validated against native runs in every check), rustc\'s IR, z3, and the property\'s oracle in /verif/harness.') for p in P],
 not_applicable=[],notes='Every check regenerates the IR from /repo on every run. See DESIGN.md.')
json.dump(man,open(V+'MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))

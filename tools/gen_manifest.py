import json,os
root=os.path.join(os.path.dirname(__file__),'..')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
NA={}
NA=json.load(open(os.path.join(root,'tools','na.json'))) if os.path.exists(os.path.join(root,'tools','na.json')) else {}
NOTE=json.load(open(os.path.join(root,'tools','level_notes.json'))) if os.path.exists(os.path.join(root,'tools','level_notes.json')) else {}
default="Every operation sequence of the listed alphabets up to the stated depth is executed on the real library and compared step by step with the reference model; nothing is claimed beyond those alphabets and depths. Trusts the model's reading of the documentation, the copy-on-write memory stub and the harness."
m={"version":1,"setup_cmd":"./run.sh setup","hooks":{"guard":"none","enable":"no hooks: the checks use only the public interface and the stable memory image","source_commits":[]},
"checks":[{"property":p['id'],"quick_cmd":f"./run.sh {p['id']} quick","thorough_cmd":f"./run.sh {p['id']} thorough","technique":"explicit-state model checking: bounded exhaustive enumeration of operation sequences on the real code in lockstep with a reference model","level":"model_checking","level_note":NOTE.get(p['id'],default)} for p in props if p['id'] not in NA],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); print(len(m['checks']))

import json
EX='explicit-state model checking: '
T={
'C01':(EX+'exhaustive enumeration of small trust graphs and operation histories on the real code against an executable reference model','model_checking'),
'C02':(EX+'exhaustive enumeration of trust graphs (small, long, dense, wide) and histories on the real code against an executable reference model','model_checking'),
'C03':(EX+'exhaustive enumeration of graphs with revocations at every place and of histories on the real code against a reference model','model_checking'),
'C04':(EX+'exhaustive enumeration of graphs, root limits and chain lengths on the real code against a reference model','model_checking'),
'C05':(EX+'exhaustive enumeration of graphs and (peer, issuer) pairs on the real code against a reference model','model_checking'),
'C06':(EX+'exhaustive enumeration of states and (valid or corrupted) additions on the real code against a reference model','model_checking'),
'C07':(EX+'all arrival orders and histories of dated statements on the real code against a reference model','model_checking'),
'C08':(EX+'exhaustive date/time grids and time-step histories on the real code against a reference model','model_checking'),
'C09':(EX+'exhaustive enumeration of certificates (every corruption at every position) and histories on the real code against a reference model','model_checking'),
'C10':('bounded exhaustive exploration: all exchanges and single-bit changes of trusts executed on the real code','exploration'),
'C11':('bounded exhaustive exploration: all exchanges and single-bit changes of revocations executed on the real code','exploration'),
'C12':('bounded exhaustive exploration: all chains, root lists and times within bounds executed on the real code against the definition','exploration'),
'C13':('bounded exhaustive exploration: all extensions within bounds executed on the real code against the definition','exploration'),
'C14':('bounded exhaustive exploration: all values within bounds through every codec of the real code','exploration'),
'C15':('bounded exhaustive exploration: all short inputs, all mutations of valid inputs and all hostile argument combinations on the real code','exploration'),
'C16':('bounded exhaustive exploration: all key/message/signature combinations and all single-bit changes on the real code','exploration'),
'C17':('bounded exhaustive exploration: all keys and signatures through every encoding of the real code','exploration'),
'C18':(EX+'all histories of root settings, trusts and queries on the real service against a reference model','model_checking'),
'C19':('bounded exhaustive exploration: every function with every shape and combination of argument origins on the real service','exploration'),
'C20':(EX+'exhaustive date/time grids and histories on the real service against a reference model','model_checking'),
'C21':('fault enumeration: a crash after every database write of every history within bounds, real service restarted on the image, answers judged by a reference model','fault_enumeration'),
'C22':('fault enumeration: a failure at every storage call of every operation and query in every state within bounds, judged by a reference model','fault_enumeration'),
'C23':('bounded exhaustive exploration: all import orders and boundary times of the shipped certificates, and the start script itself, on the real service','exploration'),
'C24':('bounded exhaustive exploration: all key pairs and dates through the issuing calls, all states within bounds carried to a second service','exploration'),
'C25':('bounded exhaustive exploration: all histories within bounds with and without additional calls at every position, compared on the real service','exploration'),
'C26':(EX+'all sequences of Aqua API calls within bounds, executed by an interpreter of the shipped scripts on real services with separate clocks, against one reference model per node; every call failing in turn','model_checking'),
'C27':('bounded exhaustive exploration: the shipped labelling script executed on the real service in all graphs within bounds and with all shipped certificates','exploration'),
'C28':('fault enumeration: the generator run by node in all environments within bounds, every API or service call of it failing in turn, its calls executed on the real service and its bundle imported there','fault_enumeration'),
'C29':(EX+'the example\'s script executed by an interpreter on real services in all graphs of the relay within bounds, every call failing in turn, against a reference model','model_checking'),
}
NOTE={'model_checking':'Every state and history within the bounds is executed on the code built from /repo, so the model is validated on every transition it takes; nothing is said beyond the bounds listed in the evidence file.',
'exploration':'Every case within the bounds is executed on the code built from /repo; nothing is said beyond the bounds listed in the evidence file.',
'fault_enumeration':'Every crash or failure point of every history within the bounds is exercised on the code built from /repo; SQLite itself (atomicity of one statement) is trusted.'}
m={'version':1,'setup_cmd':'bash check.sh build','checks':[{'property':k,'quick_cmd':f'bash check.sh {k} quick','thorough_cmd':f'bash check.sh {k} thorough','evidence_file':f'evidence/{k}.json','technique':t,'level':l,'level_note':NOTE[l]} for k,(t,l) in T.items()],'not_applicable':[],
'notes':'No hooks in /repo: the service is compiled natively with stand-ins for the host SDK and for the host-provided SQLite (real SQLite in memory).'}
json.dump(m,open('MANIFEST.json','w'),indent=1)

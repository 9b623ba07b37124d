import json
P=[]
TG='trust-graph/src/trust_graph.rs'; CH='trust-graph/src/chain.rs'; TR='trust-graph/src/trust.rs'; RV='trust-graph/src/revoke.rs'
CE='trust-graph/src/certificate.rs'; CS='trust-graph/src/certificate_serde.rs'; PH='trust-graph/src/public_key_hashable.rs'; REL='trust-graph/src/trust_relation.rs'
API='service/src/service_api.rs'; MI='service/src/misc.rs'; ST='service/src/storage_impl.rs'; DTO='service/src/dto.rs'; RES='service/src/results.rs'; MAIN='service/src/main.rs'
KP='keypair/src/key_pair.rs'; PK='keypair/src/public_key.rs'; SG='keypair/src/signature.rs'; ED='keypair/src/ed25519.rs'; SE='keypair/src/secp256k1.rs'; RS='keypair/src/rsa.rs'
def p(id,title,st,over,text,why,files,mech,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if observe: a['observe_at']=observe
    assert len(title)<=80,title
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
p('C01','Every returned certificate is a genuine chain from a configured root',
 'Every certificate returned for a peer starts with an unexpired self-signed trust of a currently configured root, ends with a trust for the queried peer, contains at least two trusts, visits no peer twice (apart from a peer\'s own self-signed trust directly after it), and each trust is one that was really issued and signed by the peer of the preceding trust. Nothing that was not admitted to the graph, belongs to another peer or is not connected to a root is ever part of a certificate.',
 ['inputs','histories','configurations'],'all trust graphs (including cyclic and dense ones), root sets, queried peers and histories of additions, at both the library and the service interface',
 'The repository tests query a handful of hand-built graphs of at most six peers; a wrong chain appears only for particular shapes (cycles, several roots, self-signed trusts of non-roots, peers with similar keys).',
 [TG,CH,API,ST],[('breadth-first path search','%s bf_search_paths'%TG),('certificate assembly','%s get_all_certs'%TG),('relation lookup by subject','%s get_relations'%ST)],['get_all_certs','get_host_certs'])
p('C02','Certificate search is complete, duplicate-free and terminates',
 'A certificate query returns exactly one certificate for every valid chain from a configured root to the peer and for every choice of including the self-signed trusts of the peers on that chain, no matter how long or numerous the chains are, in which order the trusts were added, or how many cycles the graph has. It always terminates, and returns an empty list for a peer no root leads to.',
 ['inputs','histories','configurations'],'all trust graphs (cycles, diamonds, dense graphs, long lines, wide stars), root sets and insertion orders',
 'Completeness needs every simple path of every graph; tests compare a few expected lists.',
 [TG,CH,ST],[('queue of partial chains','%s bf_search_paths'%TG),('visited check per chain','%s can_be_extended_by'%CH),('all relations of a subject','%s get_relations'%ST)],['get_all_certs','get_host_certs'])
p('C03','A revocation cuts every chain in which the revoker precedes the revoked peer',
 'While a peer\'s revocation of another peer is in force, no certificate or weight is derived from a chain in which the revoker stands anywhere before the revoked peer, directly or through any number of other peers. Chains that do not contain the revoker before the revoked peer, and all other peers, are not affected, and revocations can be listed for the revoked peer.',
 ['inputs','histories','configurations'],'all graphs, all placements of one or more revocations relative to the chains, and all histories of trusts and revocations',
 'Tests revoke one peer in two or three fixed graphs; the defect class is about the position of revoker and revoked peer in every chain.',
 [TG,CH,ST,RV],[('revoked-by set of a partial chain','%s can_be_extended_by/add_revocations'%CH),('revocations of every chain member','%s bf_search_paths'%TG)],['get_all_certs','get_weight','export_revocations'])
p('C04','Weight is 2^(max chain length - distance) of the best valid chain, else zero',
 'The weight of a peer is the maximum, over the configured roots, of 2 to the power of (the root\'s maximum chain length, at most 16, minus the number of trusts after the root trust) over all valid chains that do not exceed the root\'s maximum chain length, where a root itself has distance zero even without any trust. A peer without such a chain has weight zero.',
 ['inputs','histories','configurations'],'all graphs, root sets and maximum chain lengths from 0 to the largest representable value, and chains of every length around the limit',
 'Tests assert a few weights of short chains from one or two roots.',
 [TG,ST],[('weight factor arithmetic','%s get_weight_factor/get_weight_from_factor/certificates_weight_factor'%TG),('maximum over certificates and root weight','%s weight'%TG)],['get_weight'])
p('C05','Issuer-scoped queries consider exactly the certificates that contain the issuer',
 'The issuer-scoped certificate query returns exactly those certificates of the unscoped query in which some trust is issued for the given issuer (the root and the queried peer included), and the issuer-scoped weight is the weight of the best of these certificates, or zero when there is none. The host variants answer the same for the peer that hosts the service.',
 ['inputs','histories','configurations'],'all graphs, root sets and (peer, issuer) pairs including issuer = root, peer itself, unrelated or unknown peers',
 'Two tests check one issuer in one graph.',
 [TG,API],[('filter over chain members','%s get_all_certs_from/weight_from'%TG)],['get_all_certs_from','get_weight_from','get_host_certs_from'])
p('C06','Only authentic, unexpired trusts of weighted issuers enter the graph',
 'Adding a trust succeeds only if its signature by the stated issuer covers exactly its subject and both dates and it has not expired at the given time; otherwise an error is reported and no answer of the graph changes. An accepted trust reports half of the issuer\'s current weight (the full weight if self-signed) and takes effect exactly when that is non-zero; with zero weight the graph is unchanged.',
 ['inputs','histories','configurations'],'all trusts (valid and corrupted in any component, any issuer), all graph states reachable by histories of additions, revocations, root changes and time steps',
 'Tests cover one forged and a few valid trusts in fixed states; the weight of the issuer depends on the whole history.',
 [TG,TR,API],[('verification before use','%s Trust::verify'%TR),('weight gate','%s add_trust/get_next_weight'%TG)],['add_trust'])
p('C07','Between two peers the most recently issued statement prevails, in any order',
 'For every ordered pair of peers the statement in force is the trust or revocation with the greatest issue date among those accepted, regardless of the order of arrival, of replays of older statements, and of statements about any other pair, including the opposite direction. A newer trust cancels a revocation, a newer revocation cancels a trust, and an equally dated or older statement changes nothing.',
 ['histories','inputs'],'all arrival orders of sets of trusts and revocations of the same and of other pairs, over the full range of dates',
 'Tests replay two or three orders of one pair with small dates.',
 [ST,REL,TG],[('newest wins','%s update_relation'%ST),('one row per pair','%s create_tables/insert'%ST)],['add_trust','revoke','get_all_certs','export_revocations'])
p('C08','A trust counts until its expiry date and never afterwards',
 'For every trust and every query time, the trust contributes to certificates, weights and admissions if the time is before its expiry date and does not if the time is at or after it, for the whole range of dates including trusts that practically never expire. Expiry of one trust affects no other trust and no revocation, and an expired trust does not stop an older unexpired trust from being accepted again.',
 ['inputs','histories'],'all expiry dates and query times over the full range of timestamps around every boundary, for every trust of a chain, and histories of time steps',
 'Tests use a few expiry dates close to each other; boundary and large values are not sampled.',
 [TG,ST,TR],[('garbage collection on every query','%s get_all_certs'%TG),('expiry comparison','%s remove_expired'%ST),('expiry check on admission','%s Trust::verify'%TR)],['get_all_certs','get_weight','add_trust'])
p('C09','Importing a certificate equals adding its trusts one by one from the root',
 'Importing a certificate, as text, as a record or as a value, has exactly the effect of adding its trusts in order, each issued by the peer of the preceding one and the first by itself. A certificate whose root is not trusted changes nothing, an empty one and one with a forged, expired or misplaced trust is reported as an error, and neither the bad trust nor anything after it takes effect.',
 ['inputs','histories','configurations'],'all certificates (every length, every position and kind of corruption, any root) imported in any graph state through every import path',
 'Tests import a few valid certificates and one with an unknown root.',
 [TG,API,CE,DTO],[('sequential admission','%s add'%TG),('string import','%s insert_cert_raw'%API),('record import','%s insert_cert'%API)],['insert_cert','insert_cert_raw'])
p('C10','A trust verifies only for its exact issuer, subject and dates',
 'A trust verifies at a time exactly if that time is not after its expiry date and its signature was made by the issuer\'s key over its subject, expiry date and issue date; every change of subject, either date, issuer or signature content makes verification fail. The bytes to be signed differ for any two different combinations of subject and dates.',
 ['inputs'],'all key types, all single-component and pairwise exchanges between trusts, every single-bit change of dates, keys and signatures, all boundary dates',
 'One test corrupts one field of one ed25519 trust.',
 [TR,KP,SE,ED,RS],[('signed digest','%s signature_bytes'%TR),('verification','%s verify'%TR)],['Trust::verify','verify_trust','get_trust_bytes'])
p('C11','A revocation verifies only for its exact revoker, subject and date',
 'A revocation is accepted exactly if it carries the revoker\'s signature over the revoked peer and the date; every change of revoker, revoked peer, date or signature content is rejected and leaves the graph unchanged. A signature made for a trust never passes as a revocation, nor the reverse, for any keys made by the supported algorithms.',
 ['inputs','histories'],'all key types, all single-component and pairwise exchanges, every single-bit change of date, keys and signature',
 'One test corrupts the date of one ed25519 revocation.',
 [RV,TG,API],[('signed digest','%s signature_bytes'%RV),('verification before use','%s revoke'%TG)],['Revocation::verify','revoke'])
p('C12','Certificate verification accepts exactly the valid chains',
 'Standalone verification accepts a certificate exactly if it is not empty, its first trust is self-signed by a key in the list of trusted roots, every further trust is signed by the peer of the preceding trust, and none is expired at the given time. It depends on nothing else, in particular not on the position of the root in the list or on the length of the chain.',
 ['inputs','configurations'],'all chains up to a bounded length built from valid, foreign, re-dated, swapped, dropped, duplicated and expired trusts, all root lists and times',
 'Tests verify a few valid chains and five kinds of invalid ones of length two or three.',
 [CE,TR],[('chain walk','%s verify'%CE)],['Certificate::verify'])
p('C13','Issuing and extending certificates yields valid, correctly cut chains',
 'Issuing from a root or extending a certificate returns a chain that verifies as long as its trusts have not expired, keeps the given certificate\'s trusts up to and including the last one for the issuer and then has exactly one new trust with the requested subject and dates. Extending is refused when the issuer is not part of the given certificate, the certificate does not verify at the given time, or the expiry date is before the issue date; building from a prepared root trust and a second trust succeeds exactly if both verify.',
 ['inputs','configurations'],'all certificates up to a bounded length (including repeated keys), every issuer in and out of the chain, all relations of the dates and current time',
 'Tests extend one certificate by its last and by a middle peer.',
 [CE,TR],[('cut after issuer','%s issue/issue_with_trust'%CE),('root certificates','%s issue_root/new_from_root_trust'%CE)],['Certificate::issue','Certificate::issue_root','Certificate::issue_with_trust','Certificate::new_from_root_trust'])
p('C14','Encoding and decoding trusts and certificates is lossless',
 'Decoding the binary, text or serialized form of a trust, certificate, revocation or list of certificates yields an equal value, and the forms of different values differ. This holds for every key and signature type, every date of the full range and every number of trusts (two or more in the binary form).',
 ['inputs'],'all key and signature types and lengths, boundary dates, and chain lengths up to the format limit',
 'Tests round-trip one or two ed25519 certificates.',
 [TR,CE,CS,RV],[('binary codec','%s encode/decode'%TR),('certificate codecs','%s encode/decode/Display/FromStr'%CE),('list serializer',CS)],['Trust::encode/decode','Certificate::encode/decode','to_string/from_str','certificate_serde::vec'])
p('C15','No input makes a decoder or service call crash',
 'Every byte sequence or text given to a decoder of keys, signatures, trusts or certificates, and every argument given to a service function, produces either a value or an error, never a crash, and a rejected service call leaves the graph unchanged (an import refused midway keeps the trusts before the offending one). A value accepted by a decoder can be encoded again.',
 ['inputs'],'all short byte strings, all truncations, single-byte changes, extensions and splices of valid encodings, and malformed values for every argument of every service function',
 'Tests feed decoders only valid encodings and a few corruptions.',
 [TR,CE,PK,SG,KP,DTO,API],[('length checks','%s check_arr_len'%TR),('format checks','%s from_str/decode'%CE),('argument conversion','%s extract_public_key; %s TryFrom'%(MI,DTO))],['decode functions','all service functions'])
p('C16','A signature verifies exactly for its key and message',
 'For every key type, a signature made by a key pair over a message verifies with that pair\'s public key and that message, and fails with any other message, any other public key of any type, or any altered, truncated, extended or foreign signature bytes (apart from the second, mathematically equivalent form every ECDSA signature has). The same holds for key pairs restored from their encoded or secret form.',
 ['inputs'],'all key types, messages of all small lengths, every bit of message and signature, and all cross combinations of keys, messages and signatures',
 'Tests check one corrupted ed25519 signature and no negative case for other key types.',
 [KP,PK,SG,ED,SE,RS],[('dispatch by key type','%s verify; %s sign'%(PK,KP)),('secp256k1 verification','%s verify_hashed'%SE)],['KeyPair::sign','PublicKey::verify'])
p('C17','Key, signature and peer id encodings are lossless and unambiguous',
 'Every public key, key pair and signature survives each of its encodings (bytes, base58, peer id, secret bytes, serialized form, conversion to and from the networking library) unchanged, with its type, and different keys never share an encoding or peer id. A peer id that does not carry its key (RSA) is refused rather than mapped to some key.',
 ['inputs'],'all key types, many keys including ones sharing leading or trailing bytes, all encodings and their compositions',
 'Tests round-trip one random key per encoding.',
 [KP,PK,SG,ED,SE,RS,PH],[('type prefix','%s encode/decode; %s encode/decode'%(PK,SG)),('peer id conversion','%s to_peer_id/TryFrom<PeerId>'%PK),('key formats','%s KeyFormat'%KP)],['PublicKey','KeyPair','Signature','PublicKeyHashable'])
p('C18','Roots are set only by the service owner, the latest setting is in effect',
 'Only a call initiated by the service creator changes the roots; any other call is refused and changes nothing. After any history of settings each root has the maximum chain length of its latest setting, at once and for all chains, trusts added before included, and other roots and trusts are not affected.',
 ['histories','inputs','configurations'],'all histories of root settings (repeated, raised, lowered, several roots) by owner and others, mixed with trusts and queries',
 'Tests set each root once and check one foreign call.',
 [API,TG,ST],[('owner check','%s set_root'%API),('root table','%s set_root_weight_factor/create_tables'%ST)],['set_root','get_weight'])
p('C19','Time-dependent service calls accept only the host\'s own clock',
 'Every service call that depends on the current time is answered only if the origin of its time argument is the built-in clock service of the hosting peer; if the origin of that argument is missing, from another peer, service or function, the call fails, reveals no result and changes nothing, whatever the origins of the other arguments are.',
 ['inputs','configurations'],'all time-dependent functions and all combinations of origins (peer, service, function, missing) for every argument position',
 'Tests cover one function with wrong origins.',
 [MI,API,MAIN],[('origin check','%s check_timestamp_tetraplets'%MI),('argument index per function',API)],['all service functions with a timestamp'])
p('C20','Statements dated in the future are refused by the service',
 'The service refuses a trust or revocation, and a certificate containing a trust, whose issue date is later than the current time and then changes nothing, and accepts one dated at or before the current time on its merits. This holds over the full range of dates.',
 ['inputs','histories'],'all (issue date, current time) pairs around every boundary over the full range, in any graph state',
 'One test adds one trust and one revocation from the future.',
 [API],[('date check','%s add_trust/revoke'%API)],['add_trust','revoke'])
p('C21','Acknowledged changes survive restarts and crashes at any point',
 'After a restart at any moment, including a crash between any two database writes, the service answers as if exactly the acknowledged calls, and possibly the whole or an admissible prefix of the interrupted one, had happened. Restarting never loses or alters roots, trusts or revocations, and the start-up routine can be repeated.',
 ['crash_points','histories'],'all histories up to a bound, a crash after every database call of every operation, and restarts between any operations',
 'No test restarts the service.',
 [MAIN,ST,MI],[('idempotent schema creation','%s create_tables'%ST),('write-through storage','%s insert/set_root_weight_factor'%ST)],['all service functions after restart'])
p('C22','A storage failure is reported and never changes or invents trust',
 'If any storage access fails during a call, the call reports an error, never a certificate, weight or acceptance computed from partial data, and afterwards the graph is as before or as after the complete call (for an import: after a prefix of it). Once storage works again, repeating the call gives the same result as if the failure had not happened.',
 ['fault_sequences','histories'],'a failure of every single storage access of every operation in all reachable states up to a bound, for the library over any storage and the service over its database',
 'No test injects a storage failure.',
 [TG,ST,API],[('error propagation','%s ?-operators'%TG),('error results',RES)],['all operations'])
p('C23','The shipped root and certificates import cleanly and give the intended trust',
 'The certificates shipped with the distribution and with the builtin package are identical, handed out unchanged by the distribution package (with its modules and configuration), well formed and verify against the shipped root; setting that root with the shipped maximum chain length and importing them, with the start script or in any order, at any time of their validity gives every listed peer exactly the weight of its distance from the root, and none after their expiry.',
 ['configurations','histories'],'all shipped certificates, all import orders up to a bound, repeated import, all boundary times of the validity period',
 'No test reads the shipped files.',
 ['distro/init_certs.json','distro/src/lib.rs','builtin-package/on_start.json','builtin-package/on_start.air',API,TG],[('bootstrap script','builtin-package/on_start.air'),('import','%s insert_cert'%API)],['insert_cert','get_weight'])
p('C24','Service records carry trusts, certificates and revocations without loss',
 'Requesting the bytes to sign, signing them with any supported key, and building the record through the service yields a trust or revocation equal to the one the library creates, which verifies for exactly that issuer and can be added. Records returned by queries and exports are complete: imported into another service they give the same answers.',
 ['inputs','histories'],'all pairs of key types of issuer and subject, boundary dates, every record returned in all reachable states up to a bound',
 'Tests only use ed25519 issuers and subjects with the same kind of dates.',
 [API,DTO,RES],[('record conversions',DTO),('bytes to sign','%s get_trust_bytes/get_revocation_bytes'%API)],['get_trust_bytes','issue_trust','verify_trust','get_revocation_bytes','issue_revocation','export_revocations'])
p('C25','Queries, refused calls and issuing do not change any answer',
 'Queries and verification or issuing calls never change the answer of any later call made with the same or a later time, however often and in whatever order they are made, and neither does any refused call (an import refused midway counts as the accepted part of it). Two services that received the same accepted changes answer every query alike.',
 ['histories','inputs'],'all histories up to a bound with queries, verifications, issuing and refused calls inserted at every position',
 'Tests query a state at most a few times and never compare with an unqueried service.',
 [TG,API,ST,MI],[('read-only search','%s bf_search_paths'%TG),('garbage collection of expired trusts only','%s remove_expired'%ST)],['all query functions'])
p('C26','The Aqua API acts on the named node, with its clock, and reports every failure',
 'Every function of the shipped Aqua API has exactly the effect and answer of the corresponding service calls on the node it is meant for, with that node\'s own clock: the issuing functions date statements with the relay\'s clock, have them signed by the issuer\'s signing service and build exactly the genuine trust or revocation; the adding and revoking functions change only the named node. A refused signature or a failure of any service call is reported as an error, and nothing is changed after it. The declared types fit what the service takes and answers.',
 ['histories','configurations','inputs'],'all sequences of API calls up to a bound on a relay and another node, all clock skews between them, every service call of a function failing, every behaviour of the signing service',
 'No test runs the Aqua scripts; they need several nodes with different clocks and states.',
 ['aqua/trust-graph-api.aqua','aqua/trust-graph.aqua','aqua/misc.aqua',API],[('issue on client and relay','aqua/trust-graph-api.aqua issue_trust/issue_revocation'),('import on the node','aqua/trust-graph-api.aqua import_trust/import_revocation'),('declarations','aqua/trust-graph.aqua')],['all exported Aqua functions'])
p('C27','A host is labelled as Fluence peer exactly by root, label and host trust',
 'isFluencePeer answers true on a host exactly if that host has, at its current time, a certificate of three trusts: the self-signed trust of the Fluence root, the root\'s trust for the label peer and the label\'s trust for the host; otherwise false. If the certificates cannot be obtained, it answers with the error and no truth value. With the shipped certificates exactly the hosts they are meant for are labelled, while these are valid.',
 ['configurations','histories'],'all graphs around root, label, host and further peers, root sets, revocations, expiry; all shipped certificates and hosts',
 'No test runs the script; longer chains, other roots and other intermediate peers must not count.',
 ['aqua/labelling.aqua','aqua/trust-graph-api.aqua','distro/init_certs.json'],[('chain shape','aqua/labelling.aqua isFluencePeer')],['isFluencePeer'])
p('C28','The certificate generator writes the complete intended bundle or none',
 'For every network and node clock the certificate generator in admin/ writes a bundle that consists of exactly one certificate root > example key and one certificate root > issuer > node for every node of the labelled network, all trusts issued at the node\'s current time and expiring two years later, which a fresh service with that root accepts and which gives the example key and the nodes the weights of their distance. If a key cannot be read, the network is unknown, an API call is lost or a service call answers with a failure, it ends with an error and leaves an existing bundle untouched.',
 ['configurations','inputs','fault_sequences'],'all networks and numbers of nodes up to a bound, boundary clocks, every service and API call failing, every damaged key file, with and without an earlier bundle',
 'No test runs the generator; failures of single calls in the middle of a run cannot be provoked on a network.',
 ['admin/index.ts','admin/aqua/export.aqua','aqua/trust-graph.aqua',API],[('issuing','admin/index.ts issue_trust_helper'),('bundle','admin/index.ts main')],['npm run start in admin/'])
p('C29','The guarded computation runs only on nodes the caller is certified to trust',
 'trusted_computation of the example runs the computation exactly once and exactly on the named node, and returns its result and no error, if the relay has at its current time a certificate of that node that contains the caller; otherwise, or if the query fails, it runs nothing anywhere and returns exactly one error and no result.',
 ['configurations','histories'],'all relations between root, caller, node and further peers on the relay, all expiry dates and times within bounds, every service call failing, the relay itself as the node',
 'No test runs the example; it needs several nodes and the absence of an effect.',
 ['example/aqua/computation.aqua','aqua/trust-graph-api.aqua','aqua/trust-graph.aqua',API],[('guard','example/aqua/computation.aqua trusted_computation'),('scoped query','aqua/trust-graph-api.aqua get_all_certs_from')],['trusted_computation'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))

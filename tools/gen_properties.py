#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept here so that the wording is reviewable).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                     observe_at=observe or [],hook_needed=None)))
C='lib/crypto.go'; S='lib/structs.go'
prop('C01','Decrypting an encryption returns the plaintext',
 'For every ElGamal key pair and every integer inside the supported range, decrypting a fresh encryption with the matching private key returns exactly that integer (negative ones with the signed decryption), and the zero test answers 0 exactly for encryptions of 0. Vector encryption of integers or scalars, of any length including zero and more than one parallel batch, encrypts element i of the input at position i under the given key. Where the encryption randomness is returned, it is the randomness actually used for that position.',
 ['inputs'],'all keys, all plaintexts, all randomness; all vector lengths around and between the batch boundaries',
 'tests encrypt a handful of small constants with vectors shorter than one batch; the claim is over every key, message, randomness and length',
 [C],[('encryptPoint',C+':encryptPoint'),('vector encryption',C+':EncryptIntVector, EncryptIntVectorGetRs, EncryptScalarVector, NullCipherVector'),('decryption',C+':DecryptInt, DecryptIntWithNeg, DecryptCheckZero and vector forms'),('constructors',C+':IntToCipherText, IntArrayToCipherVector')])
prop('C02','Decryption does not depend on what was decrypted before',
 'The value returned by decrypting a ciphertext depends only on the private key, the ciphertext and the decryption mode: no earlier decryption (signed or unsigned, of any value, in range or not) changes it. A ciphertext encrypting a value in range therefore always decrypts to that value, whatever the history of the process.',
 ['histories','inputs'],'all finite sequences of signed/unsigned decryptions of in-range values',
 'tests run one or two decryptions against a process-wide cache; only particular orders of signed and unsigned decryptions expose a stale table',
 [C],[('discrete log table',C+':discreteLog, CreateDecryptionTable')],[('PointToInt','process-wide cache of known points',C),('currentGreatestInt/currentGreatestM','how far the table was filled',C)])
prop('C03','Homomorphic operations compute on the plaintexts and leave inputs intact',
 'Adding, subtracting, scaling by a scalar and accumulating ciphertexts or ciphertext vectors yields ciphertexts that decrypt, under the same key, to the corresponding operation on the plaintexts, position by position, for every vector length and also when the result is stored in one of the operands. The operands that are not the destination are left unchanged, and later changes to the result never change an operand. Ciphertext and vector equality hold exactly when all corresponding components are equal and lengths match.',
 ['inputs'],'all ciphertexts, scalars, vector lengths (0, 1, several, and around the batch size), all aliasings of destination and operands',
 'tests add two short vectors of constants; aliasing and batch boundaries are not sampled',
 [C,S],[('Add/Sub/MulCipherTextbyScalar/Acum/Equal',C)],None,['decryption of the result'])
prop('C04','Every encryption and re-randomisation uses its own fresh randomness',
 'No two ciphertexts produced by the library, in one vector or in different calls, share their encryption randomness, so encryptions of equal values are unlinkable and differ. The same holds for the re-randomisation factors of a shuffle, for precomputed ones within one precomputation and in those made with different secrets, for the randomness contributed to a key switch, and for generated keys and secret shares.',
 ['inputs'],'all lengths and call sequences within the bound; all random choices',
 'reused randomness leaves every functional test green: results still decrypt correctly',
 [C,'lib/shuffle/shuffle.go','lib/key_switch/key_switch.go'],[('encryptPoint',C),('RandomScalarSlice',C),('ShuffleSequence/CreatePrecomputedRandomize','lib/shuffle/shuffle.go'),('KeySwitch','lib/key_switch/key_switch.go')])
prop('C05','Keys and secret splitting are consistent',
 'A generated public key is the private key times the base point, and a generated collective key is the sum of the individual public keys, for any number of servers. Splitting a scalar into n extra shares returns n+1 shares whose sum is the scalar, with the caller\'s scalar left unchanged, so that data encrypted for the scalar\'s key can be decrypted with the shares. A random permutation of size n contains every index from 0 to n-1 exactly once.',
 ['inputs'],'all scalars, all numbers of servers/splits within the bound, all random choices',
 'the test checks one split of one random scalar and never looks at the argument afterwards',
 [C],[('GenKey/GenKeys',C),('SplitScalar',C),('RandomPermutation',C)])
prop('C06','Cryptographic values survive serialisation',
 'For every ciphertext, ciphertext vector, array of ciphertext vectors (with any mix of lengths, including empty ones), point, list of points, scalar and list of non-negative 32-bit integers, decoding the encoded bytes or base64 text, with the lengths returned by the encoder, yields an equal value in the same order. The reported lengths and byte sizes agree with the encoded data.',
 ['inputs'],'all values, all lengths within the bound including empty and more than one element per row',
 'tests round-trip a couple of fixed shapes; mixes of row lengths and boundary values are not sampled',
 [C,'lib/tools/tools.go'],[('ToBytes/FromBytes/Serialize/Deserialize',C),('ArrayCipherVectorToBytes/FromBytesToArrayCipherVector',C),('AbstractPointsToBytes/FromBytesToAbstractPoints',C),('UnsafeCastIntsToBytes/UnsafeCastBytesToInts','lib/tools/tools.go')])
prop('C07','Response structures survive serialisation',
 'Filtered responses, tagged filtered responses, process responses, tagged process responses and data-provider responses, with any number (including zero) of grouping, where and aggregating attributes and any where tags that are not empty and contain no slash (the separator), are equal after encoding and decoding with the lengths reported by the encoder. No field is dropped, swapped with another or shifted.',
 ['inputs'],'all attribute counts within the bound, all attribute values, all tags',
 'tests use one shape per structure, with equal numbers of attributes, which hides swapped or shifted fields',
 [S],[('ToBytes/FromBytes of FilteredResponse, FilteredResponseDet, ProcessResponse, ProcessResponseDet',S),('FromDpResponseToSend, MapBytesToMapCipherText',S)])
prop('C08','Malformed bytes are rejected with an error, never a crash',
 'Decoding a ciphertext, ciphertext vector, array of vectors, point, point list, scalar or base64 form from bytes that are too short, too long by a fraction of an element, or do not encode a group element returns an error. It never panics and never reports success for a value that was not encoded in the input.',
 ['inputs'],'all byte strings up to the length bound and all announced lengths, with validity of each element encoding arbitrary',
 'tests only feed bytes produced by the encoder',
 [C],[('FromBytes family',C)])
prop('C09','Grouping keys identify the grouping values exactly',
 'Two lists of clear grouping values map to the same key exactly when they are the same list, and two vectors of deterministic tags map to the same key exactly when they have the same tags in the same order. Turning a key of clear values back into values returns the original list for every integer, including negative and multi-digit ones.',
 ['inputs'],'all lists of 64-bit integers and all tag vectors within the length bound',
 'tests use one two-element list of single digits',
 [S,C],[('Key/UnKey',S),('DeterministCipherVector.Key',C)])
prop('C10','A shuffle is a permuted re-randomisation that keeps rows intact',
 'The output of a shuffle has exactly the rows of the input, in the order given by the returned permutation, each row kept intact and every ciphertext re-randomised under the given key with exactly the returned factors, so each decrypts as before. This holds for any number of rows, including none, of any common length, with randomisation precomputed (for the same key, with at least as many elements as needed) or not, and the input is left unchanged.',
 ['inputs'],'all rows, all permutations, all factors, all row counts/lengths within the bound, with and without precomputation',
 'the random permutation makes a test see one of n! outcomes, on equal rows it cannot distinguish',
 ['lib/shuffle/shuffle.go'],[('ShuffleSequence/shuffle/rerandomize',  'lib/shuffle/shuffle.go'),('CreatePrecomputedRandomize','lib/shuffle/shuffle.go')])
prop('C11','Shuffle proofs accept honest shuffles and reject tampered ones',
 'A shuffle proof created for an honest shuffle of at least two rows of a common length is accepted for every input, permutation and factor. If any ciphertext component of any position of the published input or output differs from the shuffled data, alone or together with others chosen to compensate it, if rows are exchanged after the proof was made, or if the keys differ, verification rejects. A proof whose published lists have inconsistent sizes is rejected, and one for a single row or data of sizes that do not fit together cannot be created, without crashing.',
 ['inputs'],'all inputs, permutations and factors, every tampered position, all shapes within the bound',
 'tests try one honest and one or two tampered proofs, at fixed positions',
 ['lib/shuffle/shuffle_proofs.go'],[('ShuffleProofCreation/Verification','lib/shuffle/shuffle_proofs.go'),('compress*, CipherVectorComputeE','lib/shuffle/shuffle_proofs.go')])
prop('C12','Key switching moves data to the target key, with sound proofs',
 'Summing the key-switch contributions of all servers and adding the original right-hand components gives ciphertexts that decrypt under the target key to the original plaintexts, at every position, for every number of servers and vector length. The proof of an honest contribution is accepted, alone and in a list, and a proof in which the keys, the contribution or the original component of any position was altered is rejected.',
 ['inputs'],'all keys, messages, randomness; number of servers and vector lengths within the bound; every tampered component',
 'tests use fixed sizes and check a single tampered proof',
 ['lib/key_switch/key_switch.go','lib/key_switch/key_switch_proofs.go'],[('KeySwitchSequence/KeySwitch','lib/key_switch/key_switch.go'),('proof creation and verification','lib/key_switch/key_switch_proofs.go')])
prop('C13','Distributed deterministic tags are equal exactly when plaintexts are',
 'After every server has applied its tagging step (in any order, with its own key and survey secret), the tags of two ciphertexts encrypted under the collective key are equal exactly when their plaintexts are equal, whatever their encryption randomness. Tags keep the order of the input and inputs are not modified.',
 ['inputs'],'all plaintexts, keys, secrets and randomness; number of servers and vector lengths within the bound',
 'tests compare a few tags for fixed plaintexts; equality must hold for all plaintext pairs and all secrets',
 ['lib/deterministic_tag/deterministic_tag.go'],[('DeterministicTag, DeterministicTagSequence, CipherVectorToDeterministicTag','lib/deterministic_tag/deterministic_tag.go')])
prop('C14','Tagging proofs accept honest steps and reject altered ones',
 'The proof of an honest tagging step and of an honest tag addition is accepted, for a single element and for lists of any length. A proof is rejected when the result was not computed with the claimed key and secret, or when any published component at any position was altered.',
 ['inputs'],'all ciphertexts, keys and secrets; list lengths within the bound, including more than one parallel batch; every tampered component',
 'tests use short lists and one tampered instance',
 ['lib/deterministic_tag/deterministic_tag_proofs.go'],[('creation proofs','lib/deterministic_tag/deterministic_tag_proofs.go:DeterministicTagCr*'),('addition proofs','lib/deterministic_tag/deterministic_tag_proofs.go:DeterministicTagAddition*')])
prop('C15','Adding or removing a server re-encrypts without changing data',
 'After a server with key pair (k,K) is added to the collective key, every ciphertext decrypts to the same value under the enlarged key, and after it is removed, under the reduced key; adding then removing is the identity. Order and number of ciphertexts are preserved, proofs of honest changes are accepted in the matching direction, and proofs with an altered ciphertext, another server key or the opposite direction are rejected.',
 ['inputs'],'all keys, ciphertexts, vector lengths within the bound; both directions',
 'tests run one direction on a fixed vector',
 ['protocols/utils/addrm_server_protocol.go','lib/add_rm/add_rm_proofs.go'],[('re-encryption','protocols/utils/addrm_server_protocol.go'),('proofs','lib/add_rm/add_rm_proofs.go')])
prop('C16','Per-group aggregation is the exact sum of each group',
 'Aggregating responses by group gives, for every group present, a response whose aggregating attributes are the sums over exactly the responses of that group, whatever the number of responses, groups and the order in which they arrive, and the responses themselves are left unchanged. Aggregation proofs built from the grouped data list each attribute with exactly its contributions and are accepted exactly when the published result equals the sum of the published data.',
 ['inputs','histories'],'all response values, all assignments of responses to groups and arrival orders within the bound',
 'tests aggregate two or three constant responses',
 [S,'lib/aggregation/aggregation_proofs.go','protocols/utils/local_aggregation_protocol.go'],[('AddInMap, FilteredResponse.Add, FormatAggregationProofs',S),('proofs','lib/aggregation/aggregation_proofs.go'),('local aggregation protocol','protocols/utils/local_aggregation_protocol.go')])
prop('C17','List-proof verification checks the announced share and never crashes',
 'Verifying a list of proofs (key switch, tagging, add/remove, aggregation, shuffle) accepts when all proofs are valid, for every list length including zero and every share of proofs to verify between 0 and 1. With a share of 1, a single invalid proof at any position makes it reject; with a smaller share, exactly the first ceil(share x length) proofs decide.',
 ['inputs'],'all list lengths within the bound, shares from a set that includes values giving fractional counts, every position of an invalid proof',
 'tests verify with share 1 only, on short valid lists',
 ['lib/key_switch/key_switch_proofs.go','lib/deterministic_tag/deterministic_tag_proofs.go','lib/add_rm/add_rm_proofs.go','lib/aggregation/aggregation_proofs.go','lib/shuffle/shuffle_proofs.go'],[('*ListProofVerification','lib/*/*_proofs.go')])
prop('C18','Clear-text local aggregation sums each group once',
 'Aggregating clear responses of one shape leaves out the responses in which some where attribute is 0, and returns for the others one response per distinct combination of grouping (and where) values, whose aggregating attributes are the sums of exactly the responses with that combination, for any values (including negative and multi-digit ones) and any mix of clear and encrypted-side attributes. Nothing is lost, merged across groups or counted twice, and the caller\'s responses are left unchanged.',
 ['inputs'],'all attribute values, all group assignments and attribute shapes within the bound',
 'the test aggregates one fixed list with single-digit values',
 ['lib/store/store.go','protocols/utils/local_clear_aggregation_protocol.go'],[('AddInClear','lib/store/store.go')])
prop('C19','Stored responses are delivered exactly once and never overwritten',
 'For every history of insertions and retrievals, each response inserted in a server\'s store is returned by exactly one later retrieval of that stage, with its own values, and a response that was handed out is never changed by later insertions. Data providers may insert at the same time. Locally and collectively aggregated results are handed out once with each group\'s exact sum, key-switched results replace earlier ones, and when noise is requested it is added once to every aggregate that is delivered.',
 ['histories'],'all sequences of store operations within the step bound, all values',
 'tests perform one insertion/retrieval cycle per store',
 ['lib/store/store.go'],[('Insert/Push/Pull methods','lib/store/store.go')],[('DpResponses, DpResponsesAggr','pending data-provider responses','lib/store/store.go'),('ShuffledProcessResponses','pending shuffled responses','lib/store/store.go'),('LocAggregatedProcessResponse, GroupedDeterministicFilteredResponses, DeliverableResults','aggregates','lib/store/store.go')])
prop('C20','Filtering keeps exactly the responses that satisfy the predicate',
 'Filtering tagged responses with a predicate over the query\'s where values keeps exactly the responses for which the predicate is true with the query\'s i-th where tag as variable v(2i) and the response\'s as v(2i+1), in order and with their own group tag and attributes; filtering without a predicate keeps all of them. A predicate that cannot be evaluated selects nothing and does not crash the server. The number of data providers counted for a survey is the sum over its servers.',
 ['inputs'],'all tags, all responses within the bound, a family of predicates covering conjunction, disjunction, inequality and single conditions',
 'the test uses two predicates on three fixed responses',
 ['services/service.go'],[('FilterResponses, FilterNone, CountDPs','services/service.go')])
prop('C21','Data-provider responses are encrypted faithfully and completely',
 'Encrypting a data provider\'s response keeps clear attributes unchanged, encrypts every sensitive attribute under the given key at its own name, and adds a count of exactly 1 if and only if counting was requested. Preparing a set of responses for a survey yields every response as many times as repetitions are requested, keeps them in order and does not change the caller\'s data.',
 ['inputs'],'all attribute values, names and counts within the bound, all repetition counts within the bound',
 'tests run one small response set',
 [S,'services/api.go'],[('EncryptDpClearResponse',S),('EncryptDataToSurvey','services/api.go')])
prop('C22','Query parsing accepts well-formed queries faithfully and rejects others',
 'The client turns a well-formed query string into exactly the sum, count, where, predicate and group-by parts it names, in order, with the where values encrypted under the collective key. An input that is not of the documented form - {s1, s2, count}, {w1, 1, w2, 27}, {g1, g2}, spaces only after a comma; where and predicate together or both absent; group-by may be absent; counting requires count among the sums - is rejected with an error instead of being silently altered.',
 ['inputs'],'query strings built from bounded lists of names and values, with malformed variants at every position',
 'there is one fixed example',
 ['cmd/unlynx/client.go'],[('parseQuery, checkRegex','cmd/unlynx/client.go')])
prop('C23','Data files and textual conversions round-trip',
 'Writing a data set to a file and reading it back yields, for each data provider, the same responses with the same attributes in the same order, for all integer values. Converting integer lists to text and back, and lists to named maps and back, is the identity for every list of integers and every starting index.',
 ['inputs'],'all 64-bit integers, list lengths and data-set shapes within the bound',
 'tests use a fixed generated file and small constants',
 ['data/handle_data.go','lib/tools/tools.go'],[('WriteDataToFile/ReadDataFromFile','data/handle_data.go'),('Int64ArrayToString/StringToInt64Array, ConvertDataToMap/ConvertMapToData','lib/tools/tools.go')])
prop('C24','Noise lists follow the requested size, bound and quantisation',
 'A noise list generated for mean 0 has exactly the requested number of values and its generation terminates. It starts with 0, followed by the positive and negative of each multiple of the quantum (scaled as requested), nearest first, each as often as its density relative to the quantum demands (rounded up), so it is symmetric in sign up to its last values and closer values are at least as frequent as farther ones. With a limit instead of a quantum, the quantum is the total density of the values below the limit divided by the requested size, and no value exceeds the limit.',
 ['inputs','configurations'],'all requested sizes up to the bound over a grid of distribution parameters',
 'the test prints or checks the size for one parameter set',
 ['lib/differential_privacy/diff_privacy.go'],[('GenerateNoiseValues, GenerateNoiseValuesScale','lib/differential_privacy/diff_privacy.go')])
prop('C25','Reference results and comparison utilities are exact',
 'The expected result computed for a data set is, per group, the sum of all responses of all data providers times the number of repetitions, and computing it leaves out responses that are not selected and does not change the data set; moving a result\'s attributes to the clear side keeps every one of them and leaves the given result as it was. Comparing two clear result lists answers true exactly when they contain the same responses with the same multiplicities, irrespective of order, absent and empty attribute sets being alike. Enumerating possible groups yields every combination exactly once, and generated data have the requested shape.',
 ['inputs'],'all values and small data sets within the bound',
 'tests compare one fixed data set with its own result',
 ['data/handle_data.go'],[('ComputeExpectedResult, CompareClearResponses, AllPossibleGroups, GenerateData','data/handle_data.go')])
prop('C26','Collective aggregation adds up every server exactly once',
 'For every tree of servers, every distribution of groups of one shape over the servers (including servers with no data) and every order in which messages arrive, the collective aggregation protocol ends and the root obtains, for each group, exactly the sum of all servers\' contributions for that group, with the group\'s own grouping attributes. It works alike for grouped data and for plain lists of ciphertexts, also when the servers\' lists differ in length.',
 ['schedules','inputs','configurations'],'trees up to the size bound, all data, all message arrival orders',
 'tests run fixed symmetric data on one tree with whatever arrival order occurs',
 ['protocols/collective_aggregation_protocol.go'],[('announcement, ascending aggregation','protocols/collective_aggregation_protocol.go'),('message serialisation','protocols/collective_aggregation_protocol.go:ChildAggregatedDataMessage')])
prop('C27','The key-switching protocol delivers the data under the target key',
 'For every tree of servers, target key, vector length and message order, the key-switching protocol ends and the root obtains, position by position, ciphertexts that decrypt under the target key to the original plaintexts. Every server contributes exactly once.',
 ['schedules','inputs','configurations'],'trees up to the size bound, all data and keys, all message arrival orders',
 'tests run fixed trees and data with whatever arrival order occurs',
 ['protocols/key_switching_protocol.go'],[('announcement and ascending phases','protocols/key_switching_protocol.go')])
prop('C28','The tagging protocol yields tags equal exactly for equal plaintexts',
 'For every number of servers, vector of ciphertexts and survey secrets, the deterministic tagging protocol ends and the root obtains one tag per input ciphertext, in order; two tags are equal exactly when the plaintexts are equal, also across runs of the protocol with the same secrets.',
 ['schedules','inputs','configurations'],'numbers of servers and vector lengths within the bound, all plaintexts, keys and secrets',
 'tests compare tags of a few constants on one roster',
 ['protocols/deterministic_tagging_protocol.go'],[('Start, Dispatch, TaggingDet','protocols/deterministic_tagging_protocol.go')])
prop('C29','The shuffling protocol returns the same multiset of rows',
 'For every number of servers, any rows of a common length, with or without precomputation, the shuffling protocol ends and the root obtains exactly the input rows in some order, each intact, every ciphertext decrypting under the collective key as before.',
 ['schedules','inputs','configurations'],'numbers of servers, row counts and lengths within the bound; all permutations and values',
 'tests use fixed rows and see one random permutation per run',
 ['protocols/shuffling_protocol.go','protocols/tools_protocol.go'],[('Start, Dispatch','protocols/shuffling_protocol.go'),('row conversions','protocols/tools_protocol.go')])
prop('C30','The combined shuffle-and-tag protocol permutes rows and tags consistently',
 'For every number of servers and any rows of a common length, the combined protocol ends and the root obtains the deterministic tags of the input rows, row by row in some permuted order with rows intact; tags are equal exactly when the plaintexts are, across columns and rows, and query and data values tagged in the same run are comparable.',
 ['schedules','inputs','configurations'],'numbers of servers, row counts and lengths within the bound; all plaintexts, keys, secrets, permutations',
 'tests use constant rows',
 ['protocols/shuffling+ddt_protocol.go'],[('Start, Dispatch','protocols/shuffling+ddt_protocol.go')])
prop('C31','Local protocols deliver exactly the library results',
 'The local aggregation, clear aggregation, add/remove-server and proof-verification protocols deliver once, in order, exactly the results that the corresponding library functions give for their target data, also when several instances run at the same time. The proof-verification result lists one verdict per submitted proof in the documented order, true exactly for the valid ones.',
 ['inputs','schedules'],'all inputs within the bounds, every combination of present and absent, valid and invalid proofs',
 'tests submit only all-valid inputs',
 ['protocols/utils/proofs_verification_protocol.go','protocols/utils/local_aggregation_protocol.go','protocols/utils/local_clear_aggregation_protocol.go','protocols/utils/addrm_server_protocol.go'],[('Start/Dispatch of the utils protocols','protocols/utils/*.go')])
prop('C32','A survey returns the exact per-group answer to the querier',
 'For every small survey - responses spread over servers, with clear or encrypted grouping, where conditions and sums, with or without count - the querier decrypts, per group selected by the predicate, exactly the sum of the matching responses. The answer does not depend on which server holds which response nor on the arrival order of protocol messages.',
 ['inputs','schedules','configurations'],'surveys with bounded numbers of servers, responses and attributes, all values and placements',
 'the service tests run a few fixed surveys end to end',
 ['services/service.go','services/api.go'],[('survey phases','services/service.go:StartService and *Phase'),('client','services/api.go')])
prop('C33','Parallel code is race free and independent of scheduling',
 'In every library function that splits its work over goroutines, no two goroutines access the same memory without synchronisation when one of them writes, under any schedule, and the function returns only when all its workers have finished. Consequently its result does not depend on the schedule (where workers draw from one common source of randomness, apart from which of the drawn values goes where).',
 ['schedules'],'all schedules of the goroutines of each parallel function, for lengths spanning at least two batches',
 'tests observe one schedule, on one CPU',
 [C,'lib/shuffle/shuffle.go','lib/shuffle/shuffle_proofs.go','lib/key_switch/key_switch_proofs.go','lib/deterministic_tag','lib/add_rm','lib/aggregation','protocols/utils'],[('parallel loops',C+' and lib/*')])
prop('C34','Published proofs survive serialisation with their meaning',
 'Every published aggregation, key-switch and shuffle proof, and lists of them of any length, is equal component by component after encoding and decoding, in the same order, and verifies exactly like the original. A proof whose components are missing or have another number of bytes than such a proof is rejected with an error, never with a crash.',
 ['inputs'],'all proof contents, all list lengths and shapes within the bound',
 'tests round-trip one proof of one shape',
 ['lib/aggregation/aggregation_proofs.go','lib/key_switch/key_switch_proofs.go','lib/shuffle/shuffle_proofs.go'],[('ToBytes/FromBytes of proofs','lib/*/*_proofs.go')])
prop('C35','Protocol messages survive serialisation',
 'Encoding and decoding a message of the tagging, aggregation, shuffling or shuffle-and-tag protocol, with the lengths the encoder reports, gives back the same elements in the same order, for every number of elements and groups (of one shape), including none. Converting between responses and flat ciphertext lists or matrices and back is the identity, except that a single response is joined by one of the same group that adds nothing.',
 ['inputs'],'all message contents and shapes within the bound',
 'tests round-trip fixed shapes',
 ['protocols/deterministic_tagging_protocol.go','protocols/collective_aggregation_protocol.go','protocols/shuffling_protocol.go','protocols/shuffling+ddt_protocol.go','protocols/tools_protocol.go'],[('message ToBytes/FromBytes','protocols/*.go'),('conversions','protocols/tools_protocol.go')])
prop('C36','Precomputed shuffle material is valid and survives storage',
 'Each precomputed line contains, for every element, the key-dependent points that correspond exactly to its scalar for the given keys; encoding and decoding a precomputation, or writing it to a file and reading it back, returns an equal one. A precomputation requested for shuffling has at least the requested number of lines and elements and suits the requested key, whether it is generated or read from the file of an earlier request.',
 ['inputs','configurations'],'all keys and random choices, all line counts and sizes within the bound',
 'tests check sizes only',
 ['lib/shuffle/shuffle.go','lib/shuffle/structs.go'],[('CreatePrecomputedRandomize, PrecomputationWritingForShuffling, ReadPrecomputedFile','lib/shuffle/shuffle.go'),('EncodeCipherVectorScalar/DecodeCipherVectorScalar','lib/shuffle/structs.go')])
prop('C37','Messages reveal nothing about encrypted data or server secrets',
 'An observer who sees every message of a key switch, tagging, aggregation, shuffle, shuffle-and-tag run or whole survey, between servers and with clients, and knows the private keys (and, outside surveys, survey secrets) of all servers but one, cannot compute any combination of encrypted data values linearly from them, nor that server\'s secrets; joined by the querier it learns per group only the group and the sum. The output of an honest server\'s shuffle cannot be linked to its input by such a combination.',
 ['inputs','configurations'],'all data, keys and random choices; any one server honest; every message and every linear combination of the group elements in all of them',
 'everything still decrypts correctly when randomness is missing or reused or a secret is sent along',
 ['protocols/key_switching_protocol.go','protocols/deterministic_tagging_protocol.go','protocols/collective_aggregation_protocol.go','protocols/shuffling_protocol.go','protocols/shuffling+ddt_protocol.go','services/service.go','services/api.go','lib/shuffle/shuffle.go','lib/key_switch/key_switch.go'],[('messages','protocols/*.go: SendTo and friends'),('requests','services/api.go')])
prop('C38','Requests that cannot be served change nothing',
 'A request for a survey a server does not know, or a submission of which any ciphertext of any response cannot be decoded, is answered with an error and has no effect: none of its responses is counted, a corrected submission is counted exactly once, other surveys are not touched. Responses lacking attributes of the query count as 0 there, attributes beyond the query are ignored, a predicate that is no condition selects nothing. No request crashes a server or leaves a client without an answer.',
 ['inputs','configurations'],'all places and kinds of malformation, subsets of attributes, kinds of requests and identifiers within the bounds; all data values',
 'tests send well-formed requests for known surveys only',
 ['services/service.go','lib/store/store.go','lib/structs.go'],[('handlers, PushData, getSurvey, NewProtocol','services/service.go'),('FromDpResponseToSend','lib/structs.go'),('proccessParameters','lib/store/store.go')])
prop('C39','Lost messages end protocols without a wrong result',
 'Whatever messages of a protocol are lost, cannot be sent or arrive too late, every server taking part ends its part within the configured timeouts, and the root delivers the right result or none at all. When messages of the runs of the server asked for the result of a survey are lost, the querier gets an error or the exact result, and the next survey on the same servers works.',
 ['fault_sequences','inputs','configurations'],'all subsets of lost messages, and combinations of lost, refused and late ones, within the bounds; all data values',
 'tests run on a network that loses nothing',
 ['protocols/key_switching_protocol.go','protocols/collective_aggregation_protocol.go','protocols/deterministic_tagging_protocol.go','protocols/shuffling_protocol.go','protocols/shuffling+ddt_protocol.go','services/service.go'],[('Dispatch and its timeouts','protocols/*.go'),('survey phases','services/service.go:*Phase')])
prop('C40','Malformed protocol messages end protocols without crashing a server',
 'When messages of a protocol arrive empty, too short, too long, undecodable or with lengths that do not match their data, no server crashes, every server ends its part, and the root delivers a result only if it has the shape of its data (one value per ciphertext, as many rows of each length). A querier whose entry server receives such a message gets an answer of the right shape or an error, and the next survey works. Decoding a message or response structure succeeds only when the bytes are exactly as many as announced.',
 ['inputs','fault_sequences','configurations'],'every change of the listed kinds to one or two messages within the bounds; all announced lengths; all data values',
 'tests exchange only well-formed messages between honest servers',
 ['protocols/key_switching_protocol.go','protocols/collective_aggregation_protocol.go','protocols/deterministic_tagging_protocol.go','protocols/shuffling_protocol.go','protocols/shuffling+ddt_protocol.go','lib/structs.go'],[('FromBytes of messages','protocols/*.go'),('FromBytes of responses','lib/structs.go')])
prop('C41','Protocols refuse to run without their inputs',
 'Starting key switching, tagging, shuffling or combined shuffling and tagging at a root that lacks the data or a key it needs returns an error. If a server lacks its survey secret key in a tagging, or its data (or has two kinds of data) in a collective aggregation, that run delivers no result. In both cases no server crashes and every server finishes the run within its timeout.',
 ['configurations','inputs'],'every protocol, tree of 2 or 3 servers and subset of missing inputs',
 'tests always set all inputs; a removed check shows as a nil dereference or a server waiting forever',
 ['protocols'],[('Start and Dispatch','protocols/key_switching_protocol.go'),('Start and Dispatch','protocols/deterministic_tagging_protocol.go'),('Start','protocols/shuffling_protocol.go'),('Start and Dispatch','protocols/shuffling+ddt_protocol.go'),('checkData','protocols/collective_aggregation_protocol.go')])
prop('C42','Requests report servers that cannot be reached',
 'When the network reports that some servers cannot be reached while the entry server distributes a new survey, the request for a result or the end of its tagging, the client gets an error instead of a confirmation or of no answer, and every server that can be reached is told all the same. A survey that some server did not confirm is never reported as created, even if nobody reports the loss. Later surveys on the same servers give exact results.',
 ['fault_sequences','configurations','inputs'],'every subset of unreachable servers and entry server at the three broadcasts; all data values',
 'tests run with all servers up',
 ['services/service.go','lib/tools/tools.go'],[('SendISMOthers','lib/tools/tools.go:SendISMOthers'),('HandleSurveyCreationQuery, HandleSurveyResultsQuery, StartService','services/service.go')])
prop('C43','Surveys over data files use every server\'s own entry of the file',
 'A survey of the command-line application counts, on every server, exactly the responses that the data file lists for that server (none if it lists none), and the client gets the exact per-group answer, also in later surveys and after a restart with new keys on the same files. The client sends exactly the query it was given, for one data provider per server. Without a readable data file no survey is created.',
 ['inputs','configurations','histories'],'all data within the bounds, every kind of query, one or two surveys on the same files',
 'tests never run the application path of the services, which reads the data and the precomputed material from files',
 ['services/service.go','services/api.go','cmd/unlynx/client.go','data/handle_data.go','lib/shuffle/shuffle.go'],[('HandleSurveyCreationQuery','services/service.go:HandleSurveyCreationQuery'),('startQuery','cmd/unlynx/client.go:startQuery'),('PrecomputationWritingForShuffling','lib/shuffle/shuffle.go'),('ReadDataFromFile','data/handle_data.go')])
prop('C44','Tags of different surveys cannot be linked',
 'Tags made with survey secrets that were chosen anew on at least one server never coincide with tags made before, and neither do the differences of tags of distinct values, whatever the values and even for the same ciphertexts, in the tagging and in the combined shuffling and tagging protocol. Every survey uses new secrets on its servers, so that no group tag and no tagged ciphertext that the servers exchange in one survey reappears in another survey, even with the same query and data.',
 ['inputs','configurations','histories'],'all values, trees and choices of the server that changes its secret; pairs of surveys with the same data',
 'tests compare tags only within one run; a secret that stays the same shows in no functional result',
 ['protocols/deterministic_tagging_protocol.go','protocols/shuffling+ddt_protocol.go','lib/deterministic_tag/deterministic_tag.go','services/service.go'],[('Dispatch','protocols/deterministic_tagging_protocol.go'),('Dispatch','protocols/shuffling+ddt_protocol.go'),('DeterministicTagSequence','lib/deterministic_tag/deterministic_tag.go'),('HandleSurveyCreationQuery','services/service.go:HandleSurveyCreationQuery')])
for p in P:
    assert len(p['title'])<=80,p['id']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))

#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the statements are easy to edit and diff).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    assert len(title)<=80,(id,len(title))
    P.append(d)
FO='primitive/fujiokam/FujiOkamCommitment.go'; FP='primitive/fujiokam/point.go'
PC='primitive/pedersen/PedersenCommitment.go'; EQ='primitive/pedersen_fujiokam/equality.go'
UT='util/Util.go'; BR='cmd/bridge/bridge.go'; CO='cmd/coordinator/Coordinator.go'; CH='cmd/coordinator/CoordinatorHandler.go'
CL='cmd/coordinator/CoordinatorLauncher.go'; SH='cmd/server/AnonServerHandler.go'; CC='cmd/client/ClientHandler.go'; CLA='cmd/client/ClientLauncher.go'
LR='primitive/lrs/LinkableRingSignature.go'
p('C01','Pedersen commitments open exactly to what was committed and add up',
 'A Pedersen commitment to x with randomness r is g^x*h^r in the suite group: committing returns that value together with the randomness used, and opening verification answers true exactly for the pairs whose recomputation equals the commitment. Adding or subtracting two commitments yields the commitment to the sum or difference of values and randomness, and randomizing raises the commitment to a fresh secret exponent that is returned. None of these operations changes its inputs or the base.',
 ['inputs'],'all bases (g,h), secrets x,r and commitments','The unit tests try two or three constants; the law is an identity over a 512-bit group.',
 [PC],[('Commit/CommitWithR/Verify/Add/Sub/Randomize',PC)],['pedersen.PedersenBase API'])
p('C02','Fujisaki-Okamoto commitments are g1^x*h1^r mod N for every signed x and r',
 'A Fujisaki-Okamoto commitment to an integer x with randomness r equals g1^x*h1^r modulo the public modulus N, for negative values too; committing draws fresh randomness from the configured radius around zero and returns the value used. Group element arithmetic (multiply, add, subtract, power, equality, binary form, integer conversion) is arithmetic modulo N with results in [0,N), and leaves the operands unchanged.',
 ['inputs'],'all moduli, generators, integers x and r','Tests sample a handful of random bases and one value each.',
 [FO,FP],[('Commit/CommitWithR/genRandomSecret',FO),('Point arithmetic',FP)])
p('C03','Every non-negative value has an accepted non-negativity argument',
 'For every non-negative integer in the supported range, every commitment to it under any well-formed base and every choice of randomness, the non-negativity argument produced by the prover is accepted by the verifier for that commitment, and the prover refuses negative values.',
 ['inputs'],'all non-negative values, bases, commitment randomness and prover coins','TestNonneg proves and verifies one random value.',
 [FO],[('ProveNonneg/ProveNonnegHelper/decomposeThreeSquare',FO),('VerifyNonneg/VerifyNonnegHelper',FO)])
p('C04','Non-negativity arguments are accepted only if every proof equation holds',
 'The non-negativity verifier accepts only if, for the challenge obtained by hashing the value commitment together with every commitment the prover sent, both sides of the square-decomposition equation and both sides of the value-opening equation are equal modulo N. In particular no commitment that enters an equation is left out of the challenge, so no component can be chosen after the challenge is known.',
 ['inputs'],'all arguments, commitments and bases, honest or malicious','No test presents an invalid argument; forging needs adversarially computed components.',
 [FO],[('VerifyNonneg/VerifyNonnegHelper',FO)])
p('C05','Honest equality arguments between the two commitment kinds are accepted',
 'For every value and randomness, if a Pedersen commitment and a Fujisaki-Okamoto commitment hold the same value, the equality argument produced by the prover is accepted by the verifier for that pair of commitments, whatever coins the prover draws.',
 ['inputs'],'all values, randomness, bases and prover coins','TestEqual checks one value.',
 [EQ],[('ProveEqual/VerifyEqual',EQ)])
p('C06','Equality arguments are accepted only if the recomputed challenge matches',
 'The equality verifier accepts only if the challenge in the argument equals the hash of the two commitments the caller asked about and the two first messages, recomputed as g^s1*h^s2*P^-c in the suite group and g1^s1*h1^s3*F^-c modulo N, where P and F are those two commitments and the same s1 is used on both sides.',
 ['inputs'],'all arguments, commitments and bases, honest or malicious','No test presents an invalid argument.',
 [EQ],[('VerifyEqual',EQ)])
p('C07','An honest setup always passes the generator honesty test',
 'For every base whose six generators are powers of h1 with recorded exponents, the honesty proof material, any challenge of 480 bits and the answer computed from them make the checker report success; the challenge depends on nothing but fresh coin flips and every answer is the secret, plus the generator exponent exactly when the challenge bit is set. Over the network as well: a client that registers with a newly started coordinator accepts its parameters, for every set-up, every challenge it may draw and the answer it gets.',
 ['inputs'],'all honest bases, all secrets and all 2^480 challenges','The tests run one random challenge.',
 [FO,CH,CC],[('GenerateAllGnHonestyProof/ChallengeAllGnHonesty/AnswerAllGnHonesty/CheckAllGnHonesty',FO),('honesty challenge handler',CH),('confirmation handler',CC)])
p('C08','The generator honesty test passes only if all 480 equations hold',
 'The checker reports success only if for each of the six generators and each of its 80 positions h1 to the answer equals the public value, multiplied by that generator exactly when the challenge bit is set; otherwise it reports the index of the first generator for which some equation fails. A client that receives an answer failing this test stops instead of accepting the parameters.',
 ['inputs'],'all answers, challenges, public values and generators','The tests never present a wrong answer.',
 [FO,CC],[('CheckAllGnHonesty/CheckGnHonesty',FO),('client honesty answer handler',CC)])
p('C09','Setup yields a consistent Fujisaki-Okamoto base, shared unchanged with everyone',
 'Setting up a base produces a modulus that is the product of the two generated safe primes, h1 a square modulo N, six generators each equal to h1 raised to its own recorded secret exponent, and the randomness radius 2^80*N with twice that as diameter. The modulus and generators are sent to servers and clients unchanged and in matching positions, and each receiver rebuilds exactly that public base.',
 ['inputs','configurations'],'all generated primes and coins; all bases that are transmitted','Tests check one run of CreateBase and never the transfer.',
 [FO,CH,SH,CC],[('CreateBaseFromSuite/CreateMinimumBase/genH/genGn',FO),('registration handlers',CH)])
p('C10','Signatures made by the signer always verify',
 'For every message, key and base (default or round-specific), a signature produced with the private key is accepted for the corresponding public key, message and base.',
 ['inputs'],'all messages, private keys, bases and signer coins','No test covers signing at all.',
 [UT],[('ElGamalSign/ElGamalVerify/hashElGamal',UT)])
p('C11','A signature is accepted only if its challenge matches this message, key and base',
 'Signature verification succeeds only if the buffer decodes to a challenge and a response such that the challenge equals the hash of the given message together with base^response*key^challenge; a different message, key or base changes the value that has to match. The inputs are not modified.',
 ['inputs'],'all byte strings, messages, keys and bases','No test covers verification.',
 [UT],[('ElGamalVerify/hashElGamal',UT)])
p('C12','Every signature a node issues uses fresh randomness and a real generator',
 'Whenever a client, server or the coordinator signs something, the one-time secret of that signature is drawn from the secure random source (never derived from constants or reused), the base is a valid group generator element, and the signature verifies under the published key of that node for exactly the bytes that are sent. Otherwise two signatures reveal the private key, or anyone can forge them.',
 ['inputs','histories'],'all messages and all signing call sites','No test signs; a repeated one-time secret is invisible to functional tests.',
 [CLA,CO,SH],[('Coordinator.SignMessage',CO),('server assignment signing',SH),('postBridge/requestBridges/sendVote',CLA)])
p('C13','ElGamal decryption inverts encryption',
 'For every key pair and every group element, decrypting the ciphertext produced under the public key with the matching private key returns the original element, and encryption uses a fresh ephemeral key each time.',
 ['inputs'],'all keys, messages and coins','No test covers it.',[UT],[('ElGamalEncrypt/ElGamalDecrypt',UT)])
p('C14','Linkable ring signatures verify, and link exactly by signer key and context',
 'For every ring, signer position, message and coins, a signature made with the private key of that position verifies for the same message and ring, and its linking tag is the context point derived from message and ring raised to the signer key, so two signatures are reported linkable exactly when their tags are equal, and the record of tags recognises exactly the tags put on record.',
 ['inputs'],'all rings, positions, keys, messages and coins','The tests use one fixed ring and message.',[LR,CO],[('Sign/Verify/Linkable',LR),('IsLinkableRecord/AddToVoteRecords',CO)])
p('C15','A ring signature is accepted only if all ring positions are covered by the hash',
 'Ring-signature verification accepts only signatures with exactly one response and one challenge per ring member, whose challenges sum to the hash of the ring, the tag, the message and all recomputed commitments of every ring position; extra or missing components are rejected.',
 ['inputs'],'all signatures, rings and messages','No test presents a malformed signature.',[LR],[('Verify/VerifyHelper',LR)])
p('C16','A shuffle outputs exactly the input pairs, permuted and re-encrypted',
 'Shuffling k pairs returns, for some permutation, pairs that equal the permuted inputs multiplied by the blinding pair (g^b, h^b) with an independent random b for each position, together with exactly those blinding parts; no pair is lost, duplicated or altered otherwise, and the inputs are unchanged.',
 ['inputs'],'all k>1, all pair vectors, all random streams','The shuffle test does not even compile here; permutations are not enumerable.',['util/shuffle/pair.go'],[('Shuffle','util/shuffle/pair.go')])
p('C17','A shuffle proof is accepted only if every verification equation holds',
 'The shuffle verifier accepts only if the vectors have the declared length and, for the challenges derived from the transcript read so far, all equations of the pair shuffle (31 to 35 in Neff) and of the embedded simple shuffle hold, the latter for the inputs derived from the pair-shuffle transcript. A server that receives a shuffled list stops unless its proof is accepted for exactly the transmitted input and output lists and key.',
 ['inputs'],'all transcripts, honest or malicious, all k','No running test verifies a shuffle, let alone a wrong one.',
 ['util/shuffle/pair.go','util/shuffle/simple.go',SH],[('PairShuffle.Verify','util/shuffle/pair.go'),('SimpleShuffle.Verify','util/shuffle/simple.go'),('verifyNeffShuffle',SH)])
p('C18','Decoding what was encoded gives the original data back',
 'For every value of every transmitted kind (big integers and lists of them, booleans, integers, byte-string lists, group elements, secrets and lists of them, non-negativity and equality arguments, ring signatures, bridge assignments and lists of them) decoding the encoding returns an equal value of the same length and order, and lookups by pseudonym return the entry at the first matching position or the documented default.',
 ['inputs'],'all values and list lengths','Tests round-trip a few constants for four of the codecs.',
 [UT,BR,'primitive/lrs/Encoding.go'],[('Encode*/Decode* families',UT),('EncodeAssignment/DecodeAssignment',BR)])
p('C19','A signed message body binds every field of the request',
 'The byte string that is signed for a bridge request, a vote or a delivered assignment is determined by, and changes with, each of its security-relevant fields: two requests that differ in any single field (including the sign of the feedback) have different signed bytes.',
 ['inputs'],'all parameter maps','No test looks at message bodies.',[BR],[('MessageOfRequestBridges/MessageOfPostBridge/MessageOfVote/MessageOfGotSignatures',BR)])
p('C20','Bridges are handed out at most once, and never more than requested',
 'Answering a request for n bridges assigns n bridges, or all unused ones if there are fewer, only ones that were posted and not yet used in this round, pairwise distinct, each with the pseudonym of its provider and of the requester; every assigned bridge is marked used and all other bridges are left as they were.',
 ['inputs','histories'],'all bridge tables and all requested counts','No test covers the coordinator.',[CO],[('GetBridge/GetBridges/AssignBridges/AddBridge',CO)])
p('C21','A bridge is recorded only with a valid signature of its provider',
 'A posted bridge enters the table only if the post carries a signature that verifies under the posting pseudonym, with the current round generator, over the bridge address and pseudonym; it is then recorded unused under that pseudonym, and nothing else changes. Clients send posts that satisfy this check.',
 ['inputs','histories'],'all posts, valid or not','No test covers handlers.',[CH,CLA],[('handlePostBridge',CH),('postBridge',CLA)])
p('C22','Bridges are assigned only for an authenticated request with a valid proof',
 'The coordinator assigns bridges, records the requester and asks servers for signatures only if the request signature verifies under the requesting pseudonym over the whole request and the reputation proof verifies against the reputation commitment of that pseudonym in this round; otherwise no state changes and nothing is sent. The servers receive exactly the assignments made and the same proof.',
 ['inputs','histories'],'all requests, valid or not, in all states','No test covers handlers.',[CH,BR],[('handleRequestBridges',CH),('VerifyInd',BR)])
p('C23','The reputation check ties the indicator, the difference and the commitment',
 'A reputation proof for indicator n passes only if the indicator commitment opens to n with the given randomness, the difference commitment equals the reputation commitment divided by the indicator commitment, the non-negativity argument verifies for the integer commitment and the equality argument verifies between exactly that integer commitment and that difference commitment.',
 ['inputs'],'all proofs, indicators and commitments','No test covers it.',[BR],[('VerifyInd',BR)])
p('C24','Servers sign assignments only after checking the proof themselves',
 'A server signs the assignments of a request only if the reputation proof verifies against its own copy of the reputation commitment of the requester; it then returns one signature per assignment, in order, over exactly the encoding of that assignment, verifiable under its public key. Otherwise it reports failure and signs nothing.',
 ['inputs','histories'],'all signing requests','No test covers handlers.',[SH],[('handleSignAssignments',SH)])
p('C25','An assignment is delivered only with signatures from all servers and coordinator',
 'The signature log of an assignment counts each server once and keeps each signature at the position of its server with that of the coordinator last; the assignment is delivered to its requester, with the complete signature list and signed by the coordinator, only when every position has been filled.',
 ['inputs','histories','schedules'],'all orders and repetitions of server replies','No test covers handlers; duplicates and orders are unbounded.',[CO,CH],[('AddAssignmentSignature/FinishCollectingAssignmentSignatures',CO),('handleGotSignatures',CH)])
p('C26','Votes count only when authenticated and fully signed, by exactly the feedback',
 'A vote changes a reputation score only if the voter is a current participant, its signature covers the whole vote, and the assignment carries valid signatures of every server and of the coordinator; it then adds exactly the feedback, +1 or -1, to the score of the provider named in that assignment and changes nothing else. A client sends +1 for a positive answer of its user and -1 otherwise.',
 ['inputs','histories'],'all votes, valid or not','No test covers handlers.',[CH,CLA],[('handleVote',CH),('sendVote',CLA)])
p('C27','Announcement re-keys and shuffles without losing or mixing reputations',
 'When a server handles an announcement it raises every pseudonym and the generator to its round key, raises every commitment and both commitment bases to one fresh exponent, remembers how to map each new pseudonym back, and forwards a permutation of the resulting pairs in which every pseudonym keeps its own commitment, with a shuffle proof for the lists it sends.',
 ['inputs','histories'],'all tables of pseudonyms and commitments, all keys','No test covers handlers.',[SH],[('handleAnnouncement/rebindReputation/convertToOrigin/neffShuffle',SH)])
p('C28','Round end maps pseudonyms back and keeps every reputation attached',
 'When a server handles the end of a round it replaces every pseudonym by the one it received in the announcement, raises every commitment and both bases to one fresh exponent, forwards a permutation of these pairs that keeps each commitment with its pseudonym, and then starts with a fresh round key and an empty mapping.',
 ['inputs','histories'],'all tables and mappings','No test covers handlers.',[SH],[('handleRoundEnd/rebindReputation/convertToOrigin',SH)])
p('C29','The coordinator applies each score once and distributes consistent tables',
 'At the end of a round the coordinator multiplies each commitment by a commitment to exactly the score collected for that pseudonym under fresh randomness, sends the matching randomness to the clients in the same order, and clears the bridges; when tables arrive it stores each pseudonym with its commitment and the new bases, resets the scores, and forwards the same bytes to all clients and servers.',
 ['inputs','histories'],'all tables and scores','No test covers handlers.',[CL,CH],[('roundEnd/announce',CL),('handleAnnouncement/handleRoundEnd',CH)])
p('C30','A client always knows the opening of its own reputation commitment',
 'After every announcement and round end the client holds the commitment listed for its own pseudonym, its reputation changed by exactly the score listed for that pseudonym and its randomness by exactly the randomness listed for it, so that the commitment opens to its reputation with its randomness whenever it did before and the round messages are the honest ones.',
 ['inputs','histories'],'all messages and all histories of rounds','No test covers the client.',[CC],[('handleAnnouncementFinalize/handleRoundEnd/handleBroadcastPedersenRDiff/handleInitPedersenR',CC)])
p('C31','A client request within its reputation is accepted by coordinator and servers',
 'If a client holds the opening of its commitment and asks for at most its reputation, the request it sends passes the signature and reputation checks of the coordinator and of every server holding the same tables (differences below 2^49, the range of the three-squares decomposition); a request above the reputation is never sent.',
 ['inputs'],'all reputations, indicators, commitments and coins','No test covers the client.',[CLA,BR],[('requestBridges',CLA),('VerifyInd',BR)])
p('C32','A client keeps only assignments signed by the coordinator',
 'A client records a delivered assignment only if the coordinator signature over the assignment and its signature list verifies under the coordinator key; it then records exactly that assignment with exactly those signatures, and otherwise changes nothing.',
 ['inputs','histories'],'all deliveries, genuine or forged','No test covers the client.',[CC],[('handleGotSignatures',CC)])
p('C33','Registration builds one consistent server chain and client record',
 'Registering a server appends it with its key to the end of the chain, tells the former last server its successor and the newcomer its predecessor and the public parameters; registering a client records its address once, commits to the starting credit and sends commitment and randomness to the right parties; each hop blinds the key with its round key and remembers the original; what a client or server registers is its own public key.',
 ['inputs','histories'],'all registration sequences','No test covers handlers.',[CH,CO,SH],[('handleServerRegister/handleClientRegisterControllerSide/handleClientRegisterServerSide',CH),('handleClientRegisterServerSide/handleServerRegisterReply/handleUpdateNextHop',SH)])
p('C34','All nodes commit with one second generator that every server contributed to',
 'When a server registers, the coordinator replaces the second Pedersen generator by its power with an exponent the server drew from secure randomness and sends to nobody; the first generator stays; before the first round the coordinator sends the result to every server of the chain, and each of them commits with exactly that generator and its unchanged first one afterwards; malformed generators are not taken over.',
 ['inputs','histories'],'all generators, server lists and drawn exponents','No test covers handlers.',[CL,CH,SH],[('configCommParams/initCoordinator',CL),('handleUpdatePedersenH/handleServerRegister',CH),('handleServerRegisterReply/handleBroadcastPedersenH',SH)])
p('C35','A ring signature does not show which member made it',
 'For every ring, position, key and message, every response and challenge of a ring signature other than those of the signer position is a uniform draw of its own modulo the order, used nowhere else; the challenge of the signer is what the hash leaves, and its response is one more independent uniform draw less challenge times key. So, apart from the linking tag, every member could have produced the same components with the same probability.',
 ['inputs'],'all rings, positions, keys, messages and coins','Tests check that signatures verify, not what their components reveal.',[LR],[('SignHelper/pickZq',LR)])
p('C36','Every message is handled once, by its type, with its parameters and sender',
 'What a node sends arrives as one message of the same type with the same parameters, together with the address of the sender; each of the three node kinds gives a message to the handler of its type, exactly once, with those parameters and, where it answers, that address, acting on its own state; a message of a type the node does not serve changes nothing and sends nothing, and bytes that are no message are refused. A listener hands everything that arrives on a connection, and nothing else, to that handler, once, before it accepts the next connection.',
 ['inputs','histories'],'all messages of all types and sizes, parameter tables and senders; any number of connections','No test covers the message loops.',[CH,SH,CC,UT,CL,CLA],[('Handle',CH),('Handle',SH),('Handle',CC),('startServerListener/startAnonServerListener/startClientListener',CL),('SendEvent/DecodeEvent',UT)])
p('C37','All nodes work with the same table, bases and generator in a round',
 'When the announcement returns, the coordinator forwards exactly the table, generator and commitment bases it took over: every server then holds the same entries and nothing of an older table, every participating client holds the same generator and bases and, for the pseudonym of its own key under that generator, the commitment the coordinator lists for it; malformed tables are not taken over.',
 ['inputs','histories'],'all tables with distinct pseudonyms, all earlier states of the nodes','Agreement spans three programs; no test runs two of them.',[CH,SH,CC],[('handleAnnouncement',CH),('handleAnnouncementFinalize',SH),('handleAnnouncementFinalize',CC)])
p('C38','A round starts without leftovers of the round before',
 'When a round starts, the coordinator has forgotten the newcomers, posted messages and requesters of the round before and nothing else; the bridges are forgotten when it ends, the scores when the table of the next one arrives, the votes on record when its voting starts; a client drops its assignments when the round ends.',
 ['inputs','histories'],'all states at the end of a round','No test runs a second round.',[CL,CO,CH,CC],[('clearBuffer/vote/roundEnd',CL),('ClearBridges/ClearVoteRecords/AddClientInBuffer',CO),('handleAnnouncement',CH),('handleRoundEnd',CC)])
p('C39','Fillers of the first round hold no credit and displace nobody',
 'The members the coordinator adds to the table before the first round get pseudonyms of freshly drawn keys that are kept nowhere and commitments to zero with fresh independent randomness under the second generator; each is filed under its own pseudonym, and every other entry, the parameters and the table of the running round stay as they are.',
 ['inputs'],'all tables, parameters, numbers of fillers and coins','No test covers the launcher; the credit of a filler is hidden in its commitment.',[CL,CO],[('addFakeClients',CL),('AddIntoRepMap/AddIntoEndingMap',CO)])
p('C40','Votes and requests cannot be linked to long-term identities',
 'No coalition that misses one honest server can tell which long-term key belongs to a pseudonym of a round better than by guessing.',
 ['inputs','histories'],'all adversaries and rounds','Tests cannot express indistinguishability.',[SH],[('shuffle and re-keying',SH)])
p('C41','Every round that is started completes',
 'If all nodes stay reachable, every announcement, request, signature collection and round end that is started eventually reaches all its recipients and the next round can begin.',
 ['schedules','fault_sequences'],'all message orders and delays','Tests run no network.',[CL],[('Launch',CL)])
p('C42','Handling is free of data races between listener, console and round loop',
 'The listener goroutine, the command loop and the round loop never access shared node state at the same time in conflicting ways.',
 ['schedules'],'all interleavings','Tests start no goroutines.',[CL,CLA],[('Launch',CL)])
p('C43','What a request shows of the reputation is blinded by randomness used only once',
 'Every number of a bridge request that is computed from the reputation, its randomness or the private key contains a freshly drawn mask that no other number of the request contains and that the request does not show, and every commitment made for the request to a value computed from them has a freshly drawn exponent of its own that is not such a mask; masks and exponents are drawn from the whole range their group prescribes. (That the ranges are wide enough for statistical hiding is not claimed.)',
 ['inputs'],'all reputations, indicators, keys, bases and coins','Tests check that proofs verify, not what their components reveal.',[CLA,'primitive/fujiokam/FujiOkamCommitment.go','primitive/pedersen_fujiokam/equality.go'],[('requestBridges',CLA),('ProveNonnegHelper/Commit/genRandomSecret','primitive/fujiokam/FujiOkamCommitment.go'),('ProveEqual','primitive/pedersen_fujiokam/equality.go')])
p('C44','Rounds run their phases in order, each only after the one before is complete',
 'From its start on and in any number of rounds, the coordinator first listens, sets up the commitment parameters once when the operator says that the servers are there, adds fillers once before the first announcement, and then repeats: empty the buffers, announce, and, once the shuffled table is back, let clients post until the operator ends it, start the vote, and, when the operator ends that, end the round; the next round starts only when the servers have returned the table of the ended one.',
 ['histories','schedules'],'all numbers of rounds, all reactions of handlers between any two steps','No test starts the coordinator; the order depends on state other goroutines change.',[CL,CH],[('Launch',CL),('handleAnnouncement/handleRoundEnd',CH)])
p('C45','Nodes listen before they register; the console does exactly what is typed',
 'A server or client registers exactly once, after its listener runs, and under the address that listener has. Each line typed at a client that starts with vote, post or get leads to exactly one vote, post or request with the numbers or text typed, any other line to none, and exit ends the program.',
 ['inputs','histories'],'all lines, all numbers of lines, all configurations','No test starts a node.',['cmd/server/ServerLauncher.go',CLA],[('Launch','cmd/server/ServerLauncher.go'),('Launch',CLA)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))

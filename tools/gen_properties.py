#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that long texts stay editable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A signing reported as successful carries valid signatures",
  "Whenever a node reports a signing request as successful, the result holds exactly one signature per requested message, in request order, and each one verifies against its message under the group key used for the request: 65 bytes r||s||v (fixed width, low s, v recovering the key) for ECDSA, a standard 64-byte Ed25519 signature for EdDSA. All nodes that report success for the same request report identical signatures.",
  ["inputs", "configurations", "schedules"],
  "every committee size, threshold, batch of messages (any length and content), key type, key, and delivery schedule",
  "The existing engine tests sign one or two fixed messages with fixed keys and mostly only check that a result arrives; padding, low-s, recovery id, batch order and odd messages depend on values a sample rarely produces.",
  ["core/engine_ecdsa.go", "core/engine_eddsa.go", "worker/job.go", "worker/worker_executor.go", "utils/crypto.go"],
  [("signature assembly and padding", "core/engine_ecdsa.go onEcSigningFinished"), ("verification of EdDSA output", "core/engine_eddsa.go onEdSigningFinished"), ("one job per message", "worker/worker_executor.go Init/OnJobResult")],
  ["EngineCallback.OnWorkSigningFinished"])
p("C02", "A successful keygen gives all nodes one key that any quorum can use",
  "When a key generation succeeds, every participant reports the same public key with the requested key type, has stored its own share of it before reporting, and any threshold+1 of the stored shares (and no fewer) determine the private key of the reported public key. Shares stored by one keygen can be used for signing by any quorum of the participants.",
  ["configurations", "schedules", "inputs"],
  "every committee size, key type and delivery schedule of the keygen messages, every quorum of its participants",
  "Existing tests check that keygen ends and that the public keys agree for a fixed committee; none reconstructs the key from stored shares or signs with a subset of what keygen stored.",
  ["core/engine_ecdsa.go", "core/engine_eddsa.go", "worker/default_worker.go", "worker/job.go", "db/database.go"],
  [("keygen outcome", "core/engine_ecdsa.go onEcKeygenFinished"), ("share storage", "worker/default_worker.go saveJobResultData")],
  ["EngineCallback.OnWorkKeygenFinished", "Database.LoadEcKeygen/LoadEdKeygen"])
p("C03", "Every accepted request gets exactly one outcome",
  "Every keygen or signing request a node accepts ends, within its time limits, in exactly one reported outcome for that request (success, failure, or not selected), whatever the other nodes and the network do. Its worker slot is then free again, so that later requests run.",
  ["histories", "fault_sequences", "schedules"],
  "every mix of requests, of silent, slow, excluding or failing peers, lost or corrupted messages, and database failures",
  "Tests cover single requests with a single failure; an outcome reported twice or never only shows for particular combinations of leader silence, exclusion, job failure and timeout.",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "worker/job.go"],
  [("outcome callbacks", "core/engine.go OnWorkFailed/OnWorkerResult/OnNodeNotSelected"), ("single broadcast of a worker result", "worker/worker_executor.go broadcastResult"), ("selection timeouts", "worker/prework_selection.go")],
  ["EngineCallback", "Engine.GetActiveWorkerCount"])
p("C04", "Queued work runs keygen first, then in arrival order, none lost or doubled",
  "Requests waiting for a free worker are started with key generations before signings and, within the same kind, in the order they were accepted. No waiting request is lost, altered or started twice, and a request whose work id is already waiting is not queued again.",
  ["histories"],
  "every sequence of add and take operations over requests of all kinds, at queue level and through the engine",
  "The one engine test queues three requests; the insertion path that shifts elements and shares backing arrays needs longer mixed histories.",
  ["core/request_queue.go", "core/engine.go", "worker/types/work_request.go"],
  [("priority insertion", "core/request_queue.go AddWork"), ("next work selection", "core/engine.go startNextWork")],
  ["NewRequestQueue", "Engine.AddRequest"])
p("C05", "Never more than two works run at once, and free slots are used",
  "At no time does a node execute more than its limit of two works, however requests, completions and failures interleave, and a work id that is being executed is never started a second time concurrently. While fewer than two are running, a waiting request is started without needing a further event.",
  ["schedules", "histories"],
  "every interleaving of concurrent AddRequest calls with worker completions and failures",
  "Tests add requests from one goroutine; the check-then-start window only opens under concurrent adds and completions.",
  ["core/engine.go", "core/request_queue.go"],
  [("slot accounting", "core/engine.go startNextWork/startWork/finishWorker")],
  ["Engine.GetActiveWorkerCount", "messages and outcomes seen by the peers"])
p("C06", "Messages that arrive before a node starts the work are not lost",
  "Protocol messages of a work that reach a node before it has been asked to do that work, or before the matching stage of the work has started, are kept (up to 64 per sender) and used when it starts, so a node that starts late still completes with the others. Messages of other works and other senders neither displace nor mix with them.",
  ["schedules", "histories"],
  "every start order and start delay of the participants, every interleaving of messages of several works and senders",
  "Tests start all nodes together or preload a couple of messages; loss needs a message to arrive in the gap between two particular stages.",
  ["core/engine.go", "core/cache/message_cache.go", "worker/default_worker.go", "worker/worker_executor.go"],
  [("pre-work cache", "core/cache/message_cache.go"), ("pre-execution cache", "worker/default_worker.go ProcessNewMessage/runExecutor")],
  ["EngineCallback", "MessageCache.GetAllMessages/PopAllMessages"])
p("C07", "Signing and keygen survive reordered, delayed and duplicated messages",
  "If all participants are honest and online and every message is eventually delivered within the time limits, every participant's keygen or signing succeeds, in whatever order messages arrive, however often they are duplicated, and however slowly a send call returns.",
  ["schedules"],
  "every delivery order, duplication and delay of all messages of the work, including slow sends",
  "The tests deliver messages promptly in send order through one channel; races between a node finishing and its last message leaving, or duplicates hitting a finished round, are never exercised.",
  ["worker/job.go", "worker/worker_executor.go", "worker/default_worker.go", "core/engine.go", "core/message/tss_phase_messages.go"],
  [("out/end channel completion", "worker/job.go startListening/addOutMessage"), ("message dispatch", "worker/worker_executor.go OnJobMessage")],
  ["EngineCallback"])
p("C08", "Lost protocol messages are recovered by asking for them",
  "If protocol messages of a running keygen or signing are lost on some links while asking and answering still work, each node detects what it is missing, asks for it, gets it again from its sender or from another node that holds it, and the work still succeeds within its time limit. This holds for every message type of the ECDSA and EdDSA protocols.",
  ["fault_sequences", "schedules"],
  "every set of lost (message type, sender, receiver) in each protocol",
  "The one test drops a message type by a name that never occurs, so nothing is dropped; which messages are recoverable depends on per-type tables.",
  ["worker/components/message_monitor.go", "worker/worker_executor.go", "core/engine.go", "core/cache/work_message_cache.go", "core/message/tss_phase_messages.go"],
  [("missing-message detection", "worker/components/message_monitor.go"), ("ask handling", "core/engine.go OnAskMessage"), ("work cache", "core/cache/work_message_cache.go")],
  ["EngineCallback"])
p("C09", "Asked-for messages go only to nodes entitled to them",
  "A node answers a request for a stored message only with exactly the stored message of that key, sent only to the node that asked; a message addressed to a single node is never handed to any other node, whoever asks and whatever key is asked for. Unknown keys are answered with nothing.",
  ["inputs", "histories"],
  "every history of messages sent and received and every asker and key",
  "No test asks for a private message from a third node or from a forged sender.",
  ["core/engine.go", "core/cache/work_message_cache.go", "types/common/tss_message.go"],
  [("recipient check", "core/engine.go OnAskMessage")],
  ["bytes written to the network"])
p("C10", "No message from the network can crash or block a node",
  "Whatever bytes a peer sends, the node does not crash and does not get stuck: handling each message returns, the node keeps accepting messages and requests, and later honest work on it still completes.",
  ["inputs", "histories"],
  "every byte string and every structurally valid but inconsistent message, at any stage of a work",
  "Tests only send well-formed messages produced by the code itself.",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "types/common/tss_message.go"],
  [("message validation", "worker/worker_executor.go ProcessUpdateMessage"), ("selection message handling", "worker/prework_selection.go ProcessNewMessage")],
  ["Engine.OnNetworkMessage"])
p("C11", "A node acts only on messages that their claimed sender signed",
  "Every message a node sends is signed with its node key over the message content, and a received message influences the node only if its signature is valid for the node it claims to come from; messages with a forged sender, a changed content or a bad signature change nothing. Genuinely signed messages that another node passes on are accepted.",
  ["inputs", "fault_sequences"],
  "every message kind, every alteration of its fields or signature and every sender identity",
  "Tests bypass the network entry point, so no signature is ever looked at.",
  ["core/engine.go", "core/signer/signer.go", "core/node.go"],
  [("signing", "core/engine.go getSignedMessageBytes"), ("verification on receipt", "core/engine.go OnNetworkMessage")],
  ["Engine.OnNetworkMessage", "bytes written to the network"])
p("C12", "All nodes choose the same leader for a work",
  "The leader of a work is one of its parties and depends only on the work id and the set of parties, so all nodes choose the same one whatever order they list the parties in. Over different work ids every party gets to lead.",
  ["inputs", "configurations"],
  "every work id and every party set in every order",
  "One or two fixed committees are tested, always in sorted order.",
  ["worker/prework_selection.go"],
  [("hash ranking", "worker/prework_selection.go ChooseLeader")],
  ["ChooseLeader", "selection messages on the network"])
p("C13", "Only a sound participant selection starts a work",
  "A leader selects only distinct parties of the request that told it they are available, includes itself unless it uses presigns made by other parties (it then reports that it was not selected), and selects all parties for a keygen and at least threshold+1 for a signing; it announces failure otherwise. A member starts executing only on an announcement from that work's leader naming such a set that includes the member; a member left out reports that it was not selected, and on any unsound announcement it does not execute.",
  ["inputs", "histories", "schedules"],
  "every set and order of availability answers, and every announcement content and sender",
  "Two selection tests with everyone honest exist; the validation function carries a 'TODO: add tests'.",
  ["worker/prework_selection.go", "worker/available_parties.go", "worker/default_worker.go"],
  [("leader finalisation", "worker/prework_selection.go checkEnoughParticipants/leaderFinalized"), ("announcement validation", "worker/prework_selection.go validateLeaderSelection")],
  ["selection callback", "bytes sent"])
p("C14", "Signing succeeds with any quorum online and fails cleanly without one",
  "With the service's own default time limits, a signing whose leader and at least threshold+1 parties in total are online succeeds on the selected nodes even though the other parties never answer, and no online member gives up before the leader does. With fewer than threshold+1 parties online, or for a keygen with any party missing, every online node reports failure after a bounded time: the leader when its limit has passed, a member when its own has at the latest, however often answers are repeated. A work that failed in this way, or since a node's messages got lost, can be asked for again under its id and succeeds once everybody is online.",
  ["fault_sequences", "configurations"],
  "every subset of offline parties, committee size and work type",
  "The tests replace the time limits by their own; the default limits and most offline subsets are never run.",
  ["worker/prework_selection.go", "core/config/timeout.go", "worker/available_parties.go"],
  [("leader wait", "worker/prework_selection.go waitForMemberResponse"), ("member wait", "worker/prework_selection.go doPreExecutionAsMember"), ("default limits", "core/config/timeout.go")],
  ["EngineCallback"])
p("C15", "A signing quorum is two thirds of the committee, rounded up",
  "For every committee of n >= 1 nodes, keygen and signing started through the service use a threshold such that exactly ceil(2n/3) parties are needed and sufficient to sign.",
  ["configurations"],
  "every committee size n",
  "Only one small table of sizes could be enumerated by hand; none is tested.",
  ["utils/misc.go", "core/heart.go"],
  [("threshold formula", "utils/misc.go GetThreshold"), ("request construction", "core/heart.go Keygen/Keysign")],
  ["utils.GetThreshold", "degree of the stored shares"])
p("C16", "A presign set is handed out complete, to its own parties, and only once",
  "The presign manager hands out either exactly the requested number of distinct unused presigns, all made by one same set of parties that are all available, together with that set of parties, or nothing. A presign handed out is never handed out again, not even under concurrent requests or after reloading from the database, presigns that another node names are accepted only if every one of them is still unused and are used up then, and asking never blocks later requests.",
  ["histories", "schedules"],
  "every sequence and interleaving of adding, loading and taking presigns with every party set and batch size",
  "Tests take one batch from one fixed list sequentially.",
  ["core/components/available_presign_manager.go", "db/database.go"],
  [("consume on selection", "core/components/available_presign_manager.go GetAvailablePresigns"), ("status update", "db/database.go UpdatePresignStatus")],
  ["AvailablePresigns"])
p("C17", "Requests and their results stay matched at the service boundary",
  "Each accepted sign request posted to the service leads to exactly one posted result that carries that very request, with signatures for its messages, also when several requests run at once or some fail; a request that is rejected returns an error and posts nothing. Every accepted keygen request leads to exactly one posted result of the requested key type. Equal requests map to the same work on all nodes and requests with different lists of message ids to different works; while a request is in process, another one with the same message ids is refused.",
  ["histories", "schedules"],
  "every mix of concurrent, repeated, failing and rejected requests",
  "No unit test drives the service object at all.",
  ["core/heart.go", "server/tss_api.go"],
  [("request registry", "core/heart.go keysignRequests"), ("work id derivation", "core/heart.go Keysign")],
  ["client.PostKeysignResult", "client.PostKeygenResult"])
p("C18", "Message caches keep exactly the most recent messages of each sender",
  "The message caches behave as a bounded log per sender: a lookup returns exactly what was stored and not yet taken or displaced, taking the messages of one work or kind leaves all others untouched and in order, and only a sender's own newer messages displace its oldest ones (after 64 pending ones; after the configured number of stored ones for sent and received ones, five times that for the node's own).",
  ["histories"],
  "every sequence of add, get and take over senders, works, kinds and keys, beyond capacity and with repeated keys",
  "Tests insert five to six distinct keys once.",
  ["core/cache/message_cache.go", "core/cache/work_message_cache.go", "tools/circular_queue.go"],
  [("per-sender list", "core/cache/message_cache.go"), ("circular queue with index", "tools/circular_queue.go")],
  ["MessageCache", "WorkMessageCache", "CircularQueue"])
p("C19", "The database returns exactly what was saved",
  "Pre-parameters, key shares, presigns and peers read back from the database equal what was saved under the same key, presigns come back in the order of the ids asked for, saving one item leaves all others unchanged, and a missing item is reported as such rather than as an empty value. Presigns are listed as available exactly until they are marked used.",
  ["histories", "inputs"],
  "every sequence of save, load, list and mark operations over all kinds of records, batches and keys",
  "The database tests save one batch of size one and skip peers; ordering and multi-row batches are not covered.",
  ["db/database.go", "db/database_helper.go", "db/migrations"],
  [("SQL statements", "db/database.go"), ("schema", "db/migrations")],
  ["Database"])
p("C20", "Encrypted values round-trip and tampering is detected",
  "A value encrypted with a key decrypts to the same value with that key, every encryption of it is different, and the plaintext does not appear in what is stored. Decrypting with another key, or anything that was altered or truncated in any way, gives an error and never a crash or a wrong value.",
  ["inputs"],
  "every value, key, and alteration of the ciphertext including truncation to any length",
  "Tests encrypt one value with one key and never alter it.",
  ["utils/crypto.go", "store/store.go"],
  [("AES-GCM", "utils/crypto.go, store/store.go")],
  ["AESDecrypt", "Store.GetEncrypted"])
p("C21", "Stream framing delivers every message whole, in order, however bytes arrive",
  "Messages written one after the other on a stream are read back exactly, in the same number and order, however the transport splits or joins the bytes. A truncated or oversized frame gives an error and never a wrong message, and writing a message larger than the allowed maximum is refused.",
  ["inputs", "schedules"],
  "every sequence of message sizes and contents and every segmentation of the byte stream",
  "No test reads two messages from one stream.",
  ["p2p/helper.go"],
  [("length prefix", "p2p/helper.go")],
  ["ReadStreamWithBuffer", "WriteStreamWithBuffer", "ConnectionManager over a real stream"])
p("C22", "Messages between connected nodes arrive once, intact, from the right peer",
  "Every message a node sends successfully to a connected peer is delivered exactly once, byte for byte, to the listener of its protocol on that peer, labelled with the sender's identity, also under concurrent sends to several peers and protocols and after a peer has restarted. Sending to an unknown peer returns an error.",
  ["schedules", "fault_sequences", "inputs"],
  "every set of concurrent senders, message sizes and peer restarts",
  "Tests use a mock connection manager throughout.",
  ["p2p/connection.go", "p2p/connection_manager.go", "p2p/helper.go"],
  [("per-peer connection and streams", "p2p/connection.go"), ("stream handler", "p2p/connection_manager.go handleStream")],
  ["ConnectionManager"])
p("C23", "A node's identity follows from its public key and is the same on all nodes",
  "From the same set of public keys, listed in any order, every node derives the same ordered list of parties with distinct identities, and each identity is the network peer id of the matching private key. Unusable keys are rejected without a crash.",
  ["inputs", "configurations"],
  "every set and order of valid and invalid secp256k1 and ed25519 public keys",
  "Only fixed valid secp256k1 keys are used in tests.",
  ["core/node.go", "utils/crypto.go"],
  [("identity derivation", "core/node.go NewNode/NewNodes")],
  ["NewNode", "NewNodes"])
p("C24", "Protocol messages keep their meaning through naming, encoding and routing",
  "A protocol message encoded for the network and decoded again is equal to the original, and its message key identifies it uniquely by work, sender, receiver and type and can be split back into these parts whatever the work id is. Every message that the ECDSA and EdDSA protocols really produce is known to the message tables: its stage, whether it is broadcast or private, and how many kinds a work sends.",
  ["inputs", "programs"],
  "every field content and every message the four protocols emit for any committee",
  "The tables are hand-written lists; tests never compare them with what the protocol library emits.",
  ["types/common/tss_message.go", "core/message/tss_phase_messages.go", "core/signer/signer.go"],
  [("message key", "types/common/tss_message.go"), ("tables", "core/message/tss_phase_messages.go")],
  ["GetMessageKey/ExtractMessageKey", "GetMessagesByWorkType", "IsBroadcastMessage", "GetMsgRound"])
p("C25", "The missing-message monitor reports exactly what blocks progress",
  "When nothing has arrived for the configured time, the monitor reports for each other participant exactly the messages not received from it among the stages reached so far (or the next stage when all of these are complete); it never reports itself, a message already received or one that is not part of the protocol, stays silent while messages keep arriving or when everything has been received, and reports nothing after being stopped.",
  ["histories"],
  "every history of received messages over participants, types and pauses",
  "No unit test drives the monitor.",
  ["worker/components/message_monitor.go"],
  [("missing computation", "worker/components/message_monitor.go findMissingMessages")],
  ["MessageMonitorCallback"])
p("C26", "Blame names exactly the silent and the accused",
  "For each work and round, the culprits are exactly the participants that did not send in that round together with those accused in it, each once; other works and rounds have no influence, and people outside the given participants are never blamed.",
  ["histories"],
  "every history of senders and accusations over works and rounds, sequential or concurrent",
  "One example with three parties is tested.",
  ["blame/manager.go"],
  [("culprit computation", "blame/manager.go GetRoundCulprits")],
  ["blame.Manager"])
p("C27", "A node works only after a valid key and readiness, and keeps its first key",
  "Before the node has been given its private key and told that its host is ready, keygen and signing requests are refused with an error, and a not-ready signal makes them refused again. A key that cannot be decrypted or used is refused without a crash and leaves the node able to accept a correct one; once set, the same key is accepted again and a different one is refused.",
  ["histories", "inputs"],
  "every sequence of setting keys (good, bad, altered, other), readiness signals and requests",
  "No test drives key provisioning or readiness.",
  ["core/heart.go", "server/tss_api.go", "utils/crypto.go"],
  [("key provisioning", "core/heart.go SetPrivKey"), ("readiness gate", "core/heart.go SetSisuReady/Keygen/Keysign")],
  ["Api"])
p("C28", "No API request can crash the service",
  "Whatever a caller passes to the service API - unknown key types, empty or malformed keys and messages, requests before a key exists, or committees that do not match the stored key - the call returns, with an error when it cannot be carried out, and the service keeps serving later requests.",
  ["inputs", "histories"],
  "every argument combination of every API call, in every order",
  "The API objects have no unit tests.",
  ["server/tss_api.go", "server/single_node_api.go", "core/heart.go", "core/engine.go"],
  [("argument checks", "server/tss_api.go, core/heart.go")],
  ["Api"])
p("C29", "Configuration written to a file reads back the same",
  "A configuration written with the service's own writer and read with its reader gives the same configuration for every setting the file carries, and every documented setting of a configuration file is read into the configuration; malformed files give an error.",
  ["inputs", "configurations"],
  "every configuration, with any strings, ports and peers",
  "Nothing tests reading or writing configuration.",
  ["core/config/toml.go", "core/config/config.go"],
  [("template", "core/config/toml.go"), ("decoder", "core/config/config.go ReadConfig")],
  ["WriteConfigFile", "ReadConfig"])
p("C30", "The single-node service signs with the key it generated",
  "In single-node mode a keygen posts the public key of a freshly generated key of the requested kind, and every later sign request posts one result carrying that request, with one signature per message in order that verifies under that key. Requests it cannot serve give an error or a failure result, not a crash or a false success.",
  ["inputs", "histories"],
  "every sequence of keygens and sign requests with any messages",
  "Only a manual e2e program exists for it.",
  ["server/single_node_api.go"],
  [("signing", "server/single_node_api.go")],
  ["client.PostKeygenResult/PostKeysignResult"])
p("C31", "Results posted to the host arrive unaltered or the caller learns of it",
  "A keygen or signing result posted to the host arrives there exactly once and unaltered; when the host is not connected, fails or refuses, posting returns an error and never crashes or reports success. Dialling keeps retrying until the host answers.",
  ["inputs", "fault_sequences"],
  "every result content and every host state",
  "There is no test of the client.",
  ["client/client.go", "types/keysign.go", "types/keygen.go"],
  [("JSON-RPC call", "client/client.go")],
  ["client.Client"])
p("C32", "A service started from its files serves its host, before and after a restart",
  "A service process that finds a well-formed environment (.env with HOME_DIR and AES_KEY_HEX) and configuration file answers on the configured port whether or not its host is up yet, connects to the configured host as soon as that answers, takes only a node key that was sealed with its own secret, and together with the other services of its committee makes keys and signs, posting each result to its own host; after it has been killed and started again it serves in the same way. A process whose secret or configuration file is missing or malformed ends with an error instead of serving.",
  ["configurations", "crash_points", "histories"],
  "every configuration, order of starts of services and hosts, and kill of a service between requests",
  "No test starts the service; main and run have no tests.",
  ["main.go", "run/run.go", "server/server.go", "server/api.go", "client/client.go", "core/config/config.go", "core/heart.go"],
  [("start-up", "run/run.go SetupApiServer"), ("choice of the mode", "server/api.go GetApi"), ("dialling", "client/client.go TryDial")],
  ["Run", "LoadConfigEnv"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("F01","Frames survive being written and read back",
"Any sequence of STOMP frames and heart-beats written with the frame writer is read back by the frame reader as exactly the same sequence: same command, same header entries in the same order with byte-identical names and values (including CR, LF, colon, backslash), and byte-identical body. This holds for any buffer sizes and however the transport splits the bytes, provided a body containing NUL carries a matching content-length header.",
["inputs"],"all frames (15 commands, any header names/values, any body), all sequences of them, all reader/writer buffer sizes, all transport chunkings",
"The tests round-trip four fixed texts; escapes, NULs, buffer-boundary sizes, multi-frame streams and chunkings combine to a space they never touch.",
["frame/reader.go","frame/writer.go","frame/encode.go"],[("header escaping and unescaping","frame/encode.go"),("Writer.Write","frame/writer.go"),("Reader.Read","frame/reader.go")],observe=["bytes on the io.Writer","frames returned by Reader.Read"])
p("F02","Any byte stream is parsed per the STOMP grammar or rejected, never mangled",
"For every byte stream, the frame reader returns precisely the frames and heart-beats that the STOMP grammar assigns to it, up to the first malformed or incomplete element, at which it returns an error and no frame. It never panics, never returns a frame from a truncated stream, and its result does not depend on how the bytes are split across reads or on the buffer size.",
["inputs"],"all byte streams: well-formed, mutated, truncated at every offset, random; all chunkings and buffer sizes",
"The tests try about six hand-written streams, one malformed command and one missing NUL.",
["frame/reader.go","frame/encode.go","frame/header.go"],[("line reader with LF / CR-LF handling","frame/reader.go"),("content-length versus NUL-terminated body","frame/reader.go")],observe=["Reader.Read results"])
p("F03","Writing a frame emits exactly its STOMP encoding or reports an error",
"A successful frame write has put exactly the STOMP encoding of that frame (or one LF for a heart-beat) on the underlying stream by the time it returns, so no header value can inject an extra header line or frame. If the underlying stream fails at any byte, the write reports an error and what was emitted is a prefix of the correct bytes.",
["inputs","fault_sequences"],"all frames and sequences of frames, all writer buffer sizes, a write failure or short write at any byte offset",
"Tests write four frames into a buffer that never fails.",
["frame/writer.go","frame/encode.go"],[("error propagation and flush per frame","frame/writer.go")],observe=["bytes on the io.Writer","error from Writer.Write"])
p("F04","A header is an ordered multimap whose first entry wins; clones are independent",
"After any sequence of operations (add, add-all, set, delete, clone), a frame header behaves as an ordered list of key/value entries in which lookup returns the first entry of a key, set replaces that entry's value or appends, delete removes all entries of the key and nothing else, and all other entries keep their order and values. A cloned header or frame equals the original when made and shares no mutable state with it afterwards.",
["histories","inputs"],"all sequences of header and frame operations on several aliased and cloned headers, all keys and values including duplicates and empty strings",
"Tests run one short fixed sequence; interactions of duplicates, deletes and clones are not sampled.",
["frame/header.go","frame/frame.go"],[("slice of alternating keys and values","frame/header.go"),("Clone deep copies","frame/frame.go")],observe=["Header accessors"])
p("F05","Numeric protocol headers are parsed exactly or rejected",
"A heart-beat value is accepted if and only if it is two unsigned decimal millisecond counts separated by a comma, each representable as a duration, and then yields exactly those durations; every other string is rejected with the heart-beat error. A content-length value is accepted if and only if it is an unsigned decimal integer that fits 32 bits, and absence, validity and malformation are reported distinctly.",
["inputs"],"all strings, concentrated near the syntactic and numeric boundaries",
"Tests use eight heart-beat strings and three content-length values, none at the overflow boundary.",
["frame/heartbeat.go","frame/header.go"],[("ParseHeartBeat","frame/heartbeat.go"),("Header.ContentLength","frame/header.go")],observe=["returned values and errors"])

p("C01","Connecting yields a correctly negotiated connection or an error and no leak",
"Connecting sends one CONNECT (or STOMP) frame that carries exactly the configured host, credentials, accepted versions, heart-beat and custom headers, and succeeds only if the server answers with a CONNECTED frame whose version is supported and whose heart-beat is well-formed; version, session and server are then those of that frame (1.0 if it names no version). In every other case (ERROR, other frame, garbage, end of stream, unsupported version, invalid option, context deadline) connecting returns an error and no connection, and a connection that was dialled by the library is closed.",
["inputs","configurations","fault_sequences"],"all option combinations and all server answers, including malformed ones, silence and closing at any byte",
"Tests cover three answers and a few options; the root-package tests are not part of the stable suite.",
["conn.go","conn_options.go","version.go","errors.go"],[("ConnectWithContext","conn.go"),("connOptions.NewFrame","conn_options.go"),("Version.CheckSupported","version.go")],observe=["bytes received by the peer","returned Conn and error","transport Close calls"])
p("C02","Client heart-beating keeps live connections up and detects dead ones",
"When client and server both agreed that the client sends heart-beats, the client never leaves the wire silent for longer than the agreed interval; when the server agreed to send them, the client keeps the connection as long as something arrives within the agreed interval and closes it, telling every subscription, within that interval plus the configured error margin, both times the grace multiplier, once the server falls silent. If either side disabled a direction (0), the client neither times out nor beats in that direction, and a configured longer interval on either side is respected. Both hold while a subscription is not read: the client keeps beating, and does not take what it did not read for silence.",
["configurations","histories"],"all pairs of requested and offered intervals incl. 0, error margins and multipliers, all traffic patterns, in virtual time",
"The one stable-in-principle test uses a single 100 ms interval in real time; the write-side test is skipped as unfinished.",
["conn.go","conn_options.go","frame/heartbeat.go"],[("negotiation in ConnectWithContext","conn.go"),("read and write timers in processLoop","conn.go")],observe=["timestamps of bytes on the wire in virtual time","close of the transport","subscription channels"])
p("C03","Every accepted send reaches the wire once, intact and in order",
"For any sends issued by any number of goroutines on one connection, each send that reports success puts exactly one SEND frame on the wire carrying the given destination, content type, body, option headers and (unless suppressed) the right content-length, frames are never interleaved, and frames of one goroutine appear in the order it issued them. A send that reports an option error puts nothing on the wire.",
["inputs","schedules","configurations"],"all destinations, bodies, option lists, numbers of goroutines, interleavings, buffer and channel capacities, and slow transports",
"No stable test inspects SEND frames; concurrency of senders is never tested.",
["conn.go","send_options.go","conn_options.go"],[("write channel and single writer goroutine","conn.go"),("createSendFrame","conn.go"),("SendOpt","send_options.go")],observe=["frames parsed from the transport by an independent decoder"])
p("C04","A receipt-confirmed call succeeds exactly when its own receipt arrives",
"A call that asks for a receipt returns success only after the server's RECEIPT naming that call's receipt id arrived, returns the server's error if an ERROR frame arrives first, and returns the documented timeout error after the configured time otherwise. Receipts that are late, duplicated, unknown or out of order never confirm another call, never disturb a subscription and never make the connection unusable.",
["histories","schedules","fault_sequences"],"all sequences of receipted and plain operations with the peer confirming, delaying, reordering, duplicating, inventing or withholding receipts, or answering ERROR, in virtual time",
"Tests cover only immediate receipts and one timeout in isolation, never a late receipt or what follows it.",
["conn.go","subscription.go","transaction.go"],[("receipt id to response channel map in processLoop","conn.go"),("readReceiptWithTimeout","conn.go")],observe=["return values and virtual times of API calls","follow-up traffic on the wire"])
p("C05","Each subscription receives exactly its own messages, in order and intact",
"Every MESSAGE the server sends for an active subscription is delivered exactly once on that subscription's channel, in server order, with destination, content type, all headers and body unchanged and tied to that subscription and connection; messages naming no active subscription are dropped without affecting any other. This holds for any mix of automatic and caller-chosen subscription ids, any number of subscriptions and consumer speeds, while other operations (sends with receipts, transactions, unsubscribes) run, and for any number of messages, each of which the consumer may acknowledge or answer before it reads the next.",
["histories","schedules","inputs"],"all interleavings of subscribes, unsubscribes, receipts and message streams over many subscriptions and ids",
"Tests use one subscription with five small messages at a time.",
["conn.go","subscription.go","message.go"],[("id to channel routing in processLoop","conn.go"),("Subscription.readLoop","subscription.go")],observe=["messages read from Subscription.C"])
p("C06","Unsubscribing ends a subscription cleanly exactly once",
"Unsubscribe sends one UNSUBSCRIBE for that subscription and returns success once the server confirms it, after which its channel delivers the messages that came before the confirmation and is then closed, and the subscription is inactive while others are unaffected. If no confirmation comes it returns the timeout error after the configured time, a second unsubscribe returns the completed-subscription error and sends nothing, and no order of unsubscribe, confirmation, messages, timeout and connection loss makes it hang or panic.",
["schedules","histories","fault_sequences"],"all interleavings of Unsubscribe with message delivery, receipt arrival (early, late, never), consumer stalls and connection close",
"The two existing tests are flaky because of such an interleaving and are excluded from the stable suite.",
["subscription.go","conn.go"],[("subscription state machine and close signalling","subscription.go"),("UNSUBSCRIBE receipt tagging in processLoop","conn.go")],state=[("state","active, closing, closed","subscription.go")],observe=["return values and virtual times","Subscription.C contents and closure","frames on the wire"])
p("C07","When a connection ends, nothing hangs and everyone is told",
"However and whenever a connection ends (server ERROR, end of stream, garbage, failed write, missed heart-beat, local disconnect), every operation in progress or issued later returns within its documented timeout with an error (or success if it had completed), every subscription being read receives one error message and then has its channel closed, and the transport is closed. No panic occurs and no library goroutine serving the connection stays behind.",
["crash_points","schedules","fault_sequences"],"a termination of every kind at every point of every generated operation history, with concurrent callers",
"Tests never end a connection while operations are in flight.",
["conn.go","subscription.go","transaction.go"],[("sendError / MustDisconnect","conn.go"),("closeMutex and closed flag","conn.go"),("Subscription.closeChannel","subscription.go")],observe=["API return values","subscription channels","transport Close","goroutine census"])
p("C08","Acknowledgements name exactly the message, as the protocol version requires",
"Acknowledging (or rejecting) a received message, inside or outside a transaction, sends exactly one ACK (NACK) frame that identifies that message in the form of the negotiated version: subscription and message-id for 1.0 and 1.1, the message's ack value as id for 1.2. Where no acknowledgement is due (auto mode) ACK sends nothing; NACK in auto mode, NACK on 1.0, a message not received from the server, or a message lacking the needed header is refused with an error and sends nothing.",
["inputs","configurations"],"all versions, ack modes, message headers, transactional or not, any order of acknowledgement",
"Tests use one id form per version, with message-id and ack value always equal.",
["conn.go","transaction.go","ack.go","message.go"],[("createAckNackFrame","conn.go"),("Transaction.Ack/Nack","transaction.go")],observe=["frames on the wire","returned errors"])
p("C09","A client transaction tags its work and is finished exactly once",
"Begin sends BEGIN with an id used by no other open transaction, and every send, ack and nack made through the transaction carries that id exactly once and nothing outside it does. Commit or abort sends one matching frame; after it succeeds every further operation on the transaction fails with the completed-transaction error and sends nothing.",
["histories","schedules"],"all programs over several concurrent transactions mixed with plain operations, with and without receipts",
"Tests run one fixed transaction shape without receipts or use after completion.",
["transaction.go","conn.go","id.go"],[("Transaction.completed","transaction.go"),("transaction header set after options","transaction.go")],observe=["frames on the wire","returned errors"])
p("C10","Graceful disconnect flushes, confirms, closes and is final",
"Disconnect sends a single DISCONNECT with a receipt after every frame accepted before it, sends no frame after it, closes the transport once the receipt arrives (or after the configured timeout, reporting the timeout), and leaves every later operation failing with an error and sending nothing. Calling it again, from any goroutine, does nothing and reports success.",
["histories","schedules","fault_sequences"],"all histories before the disconnect, concurrent senders and disconnects, receipts prompt, late or absent",
"Tests disconnect idle connections once.",
["conn.go"],[("Disconnect","conn.go"),("closed flag under closeMutex","conn.go")],observe=["frames on the wire","transport Close","returned errors"])
p("C11","Identifiers the client generates never repeat",
"All identifiers the library generates for subscriptions, receipts and transactions are distinct across all connections of the process and any number of goroutines, and never equal an identifier the caller chose for something still in use on the same connection.",
["schedules","histories"],"all concurrent programs generating ids on several connections, with caller-chosen numeric ids",
"The only test resets the counter and draws ids from one goroutine group without caller-chosen ids; it is outside the stable suite.",
["id.go","conn.go","send_options.go","transaction.go"],[("atomic counter","id.go")],observe=["ids on the wire"])
p("C12","A received message can be read as a byte stream of its body",
"Reading a message through its stream interface, with any mixture of buffer sizes and single-byte reads, yields exactly the body bytes in order and then end-of-file, and never modifies or repeats bytes.",
["inputs","histories"],"all bodies and all sequences of read sizes including zero-length",
"No test reads a message through Read or ReadByte.",
["message.go"],[("Message.Read / ReadByte","message.go")],observe=["bytes and errors returned"])
p("C13","One connection may be used from many goroutines without data races",
"Any mixture of sends, subscribes, reads, acks, transactions, unsubscribes, statistics and disconnects issued from different goroutines on one connection, and any mixture of clients of one server, executes without a data race.",
["schedules"],"all concurrent programs over one connection and over one server, executed under the race detector",
"The stable tests never share a connection between goroutines and are not run with race detection.",
["conn.go","subscription.go","transaction.go","server/client/conn.go","server/processor.go"],[("closeMutex, channels and atomics","conn.go"),("one goroutine per server connection plus one request processor","server/client/conn.go")],observe=["race detector reports"])

p("S01","The server lets in only properly negotiated, authenticated clients",
"A client is connected only if its first frame is CONNECT or STOMP, carries no receipt, passes the configured authenticator with exactly the credentials it sent, offers a version the server supports and has a well-formed heart-beat; it is then answered with CONNECTED naming the highest version both support (1.1 or 1.2). Otherwise it gets one ERROR frame and is disconnected, and nothing it sent (before or after) has any effect on queues, topics or other clients.",
["inputs","configurations","histories"],"all first frames, version lists, credentials, heart-beat values, and all frames following a refused handshake",
"Tests check the version helper on four headers; authentication and refusal are untested.",
["server/client/conn.go","server/client/frame.go","server/processor.go"],[("connecting state and handleConnect","server/client/conn.go"),("determineVersion","server/client/frame.go")],observe=["frames received by raw clients","calls to the Authenticator"])
p("S02","A queue hands each message to exactly one consumer, in order, unchanged",
"Every message accepted for a queue is delivered to exactly one subscription of that queue, or kept until one is available; messages waiting in a queue leave it in the order they arrived, and a message arriving while consumers wait goes to one of them. Body and all application headers arrive unchanged, with the subscription's id, the destination and a message id unique on that connection.",
["histories","inputs","schedules"],"all histories of sends and subscriptions over several queues, producers and consumers",
"One test sends 100 messages per queue from one sender to one auto-ack receiver.",
["server/queue/queue.go","server/queue/memory_queue.go","server/processor.go","server/client/conn.go"],[("ready-subscription list and storage per queue","server/queue/queue.go"),("request processor","server/processor.go")],observe=["MESSAGE frames received by raw clients"])
p("S03","Unacknowledged queue messages are never lost; acknowledged ones never return",
"In the client and client-individual modes a subscription has at most one message awaiting acknowledgement; ACK of it (in the form of the negotiated protocol version) settles that message only and makes the subscription ready for the next, NACK returns it to the front of its queue (so it is the next message to leave it), and losing the connection returns it for other consumers. A settled message is never delivered again, and an acknowledgement never affects another subscription or connection.",
["histories","fault_sequences"],"all histories of deliveries, acks, nacks, unsubscribes and disconnects over several subscriptions, modes and protocol versions 1.1 and 1.2",
"No test sends an ACK or NACK to the server; list helpers are tested with hand-set ids.",
["server/client/conn.go","server/client/subscription_list.go","server/client/subscription.go","server/queue/queue.go"],[("handleAck / handleNack","server/client/conn.go"),("pending-ack list","server/client/subscription_list.go"),("requeue on cleanup","server/client/conn.go")],observe=["MESSAGE frames received by raw clients"])
p("S04","A topic message reaches every current subscriber exactly once",
"Every message sent to a topic is delivered exactly once to each subscription of that topic that exists when the message is processed, in the same order for all, unchanged and carrying that subscription's own id, and to nobody else. Topics retain nothing for later subscribers, and what one subscriber's connection does with its copy never alters another's.",
["histories","inputs","schedules"],"all histories of subscribes, unsubscribes, disconnects and sends over several topics and clients, several subscriptions per client",
"Tests use at most two or three fixed subscribers with identical payload shapes.",
["server/topic/topic.go","server/processor.go","server/client/conn.go","frame/frame.go"],[("Topic.Enqueue cloning per subscriber","server/topic/topic.go")],observe=["MESSAGE frames received by raw clients"])
p("S05","Server transactions are all-or-nothing",
"Frames sent in a transaction have no effect until COMMIT, which applies all of them exactly once in the order they were sent; ABORT or loss of the connection discards all of them. Transaction ids are private to a connection, may be reused after completion, and using an unknown id or beginning an open one is an error that ends the connection.",
["histories","fault_sequences"],"all histories over several open transactions and connections, containing sends, acks and nacks, with aborts, commits and disconnects at any point",
"The transaction store is tested alone with four frames; no test runs a transaction through the server.",
["server/client/tx_store.go","server/client/conn.go"],[("txStore","server/client/tx_store.go"),("handleCommit replays stored frames","server/client/conn.go")],observe=["frames received by raw clients"])
p("S06","Every receipt request is answered once, and errors end the connection",
"Each client frame that asks for a receipt and is accepted is answered with exactly one RECEIPT carrying that receipt id, in the order of the requests, whatever the frame's command; no RECEIPT is sent otherwise. A frame the server rejects (missing or invalid header, unknown transaction or subscription, duplicate id, server-only command, ...) gets one ERROR, carrying the receipt id if one was requested and no RECEIPT, after which the connection is closed.",
["inputs","histories"],"all frame sequences, valid and invalid, with and without receipt headers, in all protocol states",
"Only the DISCONNECT receipt is exercised by the tests.",
["server/client/conn.go"],[("sendReceiptImmediately / sendErrorImmediately","server/client/conn.go")],observe=["RECEIPT and ERROR frames received by raw clients"])
p("S07","No client can crash the server or disturb the others",
"Whatever bytes a client sends and however it behaves on the network (garbage, truncation, flooding, stalling, abrupt close at any byte), the server keeps running, keeps accepting connections, and serves well-behaved clients exactly as if the offender were absent, apart from the messages the offender validly sent or consumed.",
["inputs","fault_sequences","schedules"],"all byte streams and network behaviours of hostile clients next to well-behaved ones",
"No test sends the server an invalid frame.",
["server/client/conn.go","server/processor.go","frame/reader.go"],[("per-connection goroutines","server/client/conn.go"),("validation before requests reach the processor","server/client/conn.go")],observe=["traffic of well-behaved clients","process survival"])
p("S08","Clients leaving at any moment under load lose no queue message and wedge nothing",
"When connections close abruptly, unsubscribe or resubscribe at arbitrary moments while messages flow, every message accepted for a queue whose consumers acknowledge is eventually delivered to a remaining or later consumer unless it was acknowledged, with no duplicate of an acknowledged one, and the server continues to serve all queues and topics. No interleaving of traffic in both directions deadlocks the server.",
["schedules","crash_points","fault_sequences"],"all interleavings of producers, consumers, closes at any byte and resubscriptions, explored with randomised scheduling",
"The stable test has no disconnects and relies on one natural schedule.",
["server/client/conn.go","server/processor.go","server/queue/queue.go"],[("cleanupConn","server/client/conn.go"),("request channel between connections and processor","server/processor.go")],state=[("pending deliveries","messages handed to a connection but not yet written","server/client/conn.go")],observe=["deliveries received by raw clients","drain of all queues at the end"])
p("S09","Server heart-beating honours the negotiated intervals",
"The CONNECTED reply states intervals that are 0 where the client said 0 and otherwise at least what the client asked and the server's own minimum; the server then never stays silent longer than the interval it promised and disconnects a client only after it has been silent for longer than the interval agreed for it, doing so within twice that interval. With a direction disabled, no beats are sent and no idle client is dropped.",
["configurations","histories"],"all client and server heart-beat settings and traffic patterns, in virtual time",
"One real-time test with 5 ms beats checks only that a live connection survives 100 ms.",
["server/client/conn.go","server/client/frame.go","server/client/util.go","server/processor.go"],[("handleConnect negotiation","server/client/conn.go"),("readLoop deadline and processLoop timer","server/client/conn.go")],observe=["timestamps of bytes and closes in virtual time"])
p("S10","Any conforming queue storage is driven correctly",
"With a caller-supplied queue storage, the server starts it before use, calls it from one goroutine at a time, stores every message that finds no ready consumer at the back of its queue and every returned message at the front, takes a message out only to deliver it, and never mixes queues; so the stored content always equals what a reference model of the accepted traffic predicts; and a server started on a storage that already holds messages delivers those like any others. The in-memory storage itself behaves as an independent double-ended queue per name.",
["histories","configurations"],"all operation histories against storages of different implementations; all operation sequences on the in-memory storage",
"The in-memory storage is tested with one short sequence; a custom storage is never plugged in.",
["server/queue/queue.go","server/queue/memory_queue.go","server/queue/manager.go","server/queue_storage.go","server/processor.go"],[("Queue.Enqueue/Requeue/Subscribe","server/queue/queue.go")],observe=["calls on the storage","MESSAGE frames"])
p("S11","After DISCONNECT the server sends nothing but the receipt",
"A DISCONNECT frame is answered with its receipt if it asked for one and with nothing else; from then on no further message is sent to that client, frames it sends afterwards have no effect, its unacknowledged and undelivered queue messages go to other consumers, its open transactions are discarded, and its connection ends.",
["histories","schedules"],"all session states at the time of DISCONNECT, with and without receipt, with traffic racing it",
"The test disconnects an idle client only.",
["server/client/conn.go"],[("handleDisconnect and cleanupConn","server/client/conn.go")],observe=["frames received by the disconnecting and other clients"])
p("S12","Subscription ids scope deliveries per connection for exactly their lifetime",
"A subscription receives messages only between its SUBSCRIBE and its UNSUBSCRIBE, under its own id and from its own destination; ids are private to a connection, a duplicate is refused, and an id can be reused after unsubscribing, for any destination, without inheriting anything from its predecessor. Queue messages caught in flight by an unsubscribe go back to their queue.",
["histories","schedules"],"all histories of subscribe, unsubscribe and resubscribe with reused ids over several destinations while messages flow",
"No test unsubscribes on the server.",
["server/client/conn.go","server/queue/queue.go","server/topic/topic.go"],[("per-connection subscription map","server/client/conn.go"),("requeue of in-flight frames","server/client/conn.go")],observe=["MESSAGE frames received by raw clients"])
p("S13","The server keeps nothing of clients and messages that are finished",
"However a client's connection ends, and whatever it left behind (subscriptions, open transactions, unacknowledged or undelivered messages), once it is gone and its messages are settled the server holds nothing of it; on connections that stay, ended subscriptions, finished transactions, settled messages and destinations no longer in use are released as well. What the server keeps in memory is therefore bounded by what is live, however long it runs.",
["histories","schedules"],"all rounds of client behaviour, repeated any number of times, with clients ending in every way",
"No test observes memory, and the leftovers of a client that is gone are invisible on the wire.",
["server/client/conn.go","server/client/tx_store.go","server/client/subscription_list.go","server/queue/queue.go","server/queue/memory_queue.go","server/topic/topic.go","server/processor.go"],[("cleanupConn","server/client/conn.go"),("Topic.Unsubscribe","server/topic/topic.go"),("txStore.Commit/Abort","server/client/tx_store.go")],observe=["reachable heap objects after garbage collection"])
p("C14","A client connection keeps nothing of what is finished",
"Consumed messages, ended subscriptions, finished transactions, completed sends and answered receipts (even late ones) are released while their connection goes on, and a connection that has ended, in whatever way, is released with everything that belonged to it. What the client library keeps in memory is therefore bounded by what is live, however long the program runs.",
["histories","schedules"],"all rounds of operations on a connection, and of connections, repeated any number of times",
"No test observes memory.",
["conn.go","subscription.go","transaction.go","id.go"],[("routes (unsubscribe, receipts)","conn.go"),("readLoop/processLoop ends","conn.go"),("Subscription.readLoop","subscription.go")],observe=["reachable heap objects after garbage collection"])
p("C15","Connection statistics count exactly what was sent and received",
"On a connection made with statistics, WritesSent counts the frames the caller's operations send (sends, subscriptions, unsubscriptions, acknowledgements, transactions, DISCONNECT; not the handshake, heart-beats or refused operations) and ReadsReceived the frames and heart-beats received after the handshake. At any moment they lie between what has reached the other side and what has begun, they never decrease, and they are exact whenever nothing is under way. The channel sizes stay within their capacities and are zero when idle. Without the option both counts stay zero.",
["histories","schedules"],"all programs of several goroutines on a connection with statistics read at any moment, with and without heart-beats, and all ends of the connection",
"One test reads the statistics once, after one frame in each direction.",
["conn.go","conn_options.go","subscription.go","transaction.go"],[("Conn.Stats","conn.go"),("sendFrame, sendMessage, Subscribe, Disconnect","conn.go"),("readLoop","conn.go"),("ConnOpt.WithStats","conn_options.go")],observe=["Conn.Stats results","frames received and sent by the peer"])
p("E01","The bundled client and server interoperate for every feature and version",
"Any program written against the client library (send, subscribe in every ack mode, ack, nack, transactions, receipts, unsubscribe, disconnect, over protocol 1.1 or 1.2) and run against the bundled server (as a library, or as the program stompd) has the effects the API documents: every call that should succeed does, no connection is dropped, and the messages each subscription receives are those a reference broker model predicts.",
["programs","histories","configurations"],"all generated programs over several client connections, versions, ack modes and options",
"The server tests use auto-ack receivers and plain senders only.",
["conn.go","subscription.go","transaction.go","server/client/conn.go","server/processor.go","server/server.go","stompd/main.go"],[("client protocol engine","conn.go"),("server protocol engine","server/client/conn.go")],observe=["client API results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

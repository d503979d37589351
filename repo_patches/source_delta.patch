From ae6f6e119ea2deee6eafaccac577676dd8d25298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 01/31] fix: adding a header to itself never ended

---
 frame/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/header.go b/frame/header.go
index 163f513..2eab7d6 100644
--- a/frame/header.go
+++ b/frame/header.go
@@ -75,7 +75,7 @@ func (h *Header) Add(key, value string) {
 // AddHeader adds all of the key value pairs in header to h.
 func (h *Header) AddHeader(header *Header) {
 	if header != nil {
-		for i := 0; i < header.Len(); i++ {
+		for i, n := 0, header.Len(); i < n; i++ {
 			key, value := header.GetAt(i)
 			h.Add(key, value)
 		}
-- 
2.43.0


From 0f254a934c2be5cb1d28be2d5868527c8fc35078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 02/31] fix: a SEND frame without a destination crashed the
 server

---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..2d2fe81 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -748,6 +748,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// The request processor relies on this header being present.
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 2c540b41eacba4d985ae04420a6ef0f65d896858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/31] fix: a SUBSCRIBE frame with an invalid ack value led to
 a server panic

---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 2d2fe81..e6729ff 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -624,6 +624,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From 3df55452e31cde51a35e9e28f9e5f799abd4184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 04/31] fix: waiting for the next message after an
 acknowledgement crashed the server

---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 6b4f33a08e87da085f263090d398ff34d8a4e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 05/31] fix: an acknowledgement settled messages of other
 subscriptions

---
 server/client/conn.go              | 15 +++++++++------
 server/client/subscription_list.go | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index e6729ff..7f91ee6 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,7 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
@@ -691,15 +692,17 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Ack(msgId64, func(s *Subscription) {
+		// handle the subscription whose message is acknowledged: it never has
+		// more than one message pending, so ack:client is no different from
+		// ack:client-individual, and other subscriptions are not affected
+		if s := c.subList.FindByMsgIdAndRemove(msgId64); s != nil {
 			// remove frame from the subscription, it has been delivered
 			s.frame = nil
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
 			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
-		})
+		}
 	}
 
 	return nil
@@ -734,8 +737,8 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Nack(msgId64, func(s *Subscription) {
+		// handle the subscription whose message is rejected
+		if s := c.subList.FindByMsgIdAndRemove(msgId64); s != nil {
 			// send frame back to upper layer for requeue
 			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
 
@@ -745,7 +748,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			// let the upper layer know that this subscription
 			// is ready for another frame
 			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
-		})
+		}
 	}
 	return nil
 }
diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 2e5942a..791fdce 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -99,6 +99,21 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 	}
 }
 
+// Finds the subscription in the subscription list whose pending message
+// has the specified message-id, and removes it from the list. Returns nil
+// if there is no such subscription.
+func (sl *SubscriptionList) FindByMsgIdAndRemove(msgId uint64) *Subscription {
+	for e := sl.subs.Front(); e != nil; e = e.Next() {
+		sub := e.Value.(*Subscription)
+		if sub.msgId == msgId {
+			sl.subs.Remove(e)
+			sub.subList = nil
+			return sub
+		}
+	}
+	return nil
+}
+
 // Invoke a callback function for every subscription in the list.
 func (sl *SubscriptionList) ForEach(callback func(s *Subscription, isLast bool)) {
 	for e := sl.subs.Front(); e != nil; {
-- 
2.43.0


From effaac623f770e99e5413922c1a1a958a2bab789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 06/31] fix: the server did not understand ACK and NACK frames
 of STOMP 1.2

---
 server/client/conn.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7f91ee6..9dbde98 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -663,18 +663,34 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
-func (c *Conn) handleAck(f *frame.Frame) error {
-	var err error
+// Returns the message-id that an ACK or NACK frame refers to.
+func (c *Conn) ackedMessageId(f *frame.Frame) (uint64, error) {
 	var msgId string
+	var ok bool
 
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
+	// As of STOMP 1.2, the id header contains the ack header of the message.
+	if c.version == stomp.V12 {
+		msgId, ok = f.Header.Contains(frame.Id)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.Ack)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.MessageId)
+	}
+	if !ok {
+		if c.version == stomp.V12 {
+			return 0, missingHeader(frame.Id)
+		}
+		return 0, missingHeader(frame.MessageId)
 	}
 
 	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	return strconv.ParseUint(msgId, 10, 64)
+}
+
+func (c *Conn) handleAck(f *frame.Frame) error {
+	msgId64, err := c.ackedMessageId(f)
 	if err != nil {
 		return err
 	}
@@ -709,17 +725,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
-	}
-
-	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	msgId64, err := c.ackedMessageId(f)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 228051cb0a35db20d048e4bd21b38b022497de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 07/31] fix: an ended subscription could receive messages
 again, in place of its successor

---
 server/client/conn.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 9dbde98..343bda1 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -280,7 +280,8 @@ func (c *Conn) processLoop() {
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			// (its id might be in use again by a new subscription)
+			if c.subs[sub.id] == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -716,8 +717,11 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has been
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		}
 	}
 
@@ -752,8 +756,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has been
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From ea40efb3c49661a76c0d19718617f3aeee9497f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 08/31] fix: some frames got no RECEIPT, and rejected ones did
 get one

---
 server/client/conn.go | 81 +++++++++++++------------------------------
 1 file changed, 25 insertions(+), 56 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 343bda1..6f4e534 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -436,6 +436,29 @@ func connecting(c *Conn, f *frame.Frame) error {
 
 // State function for after connect frame received.
 func connected(c *Conn, f *frame.Frame) error {
+	// Take the receipt header out of the frame first, as the frame belongs to
+	// the transaction store or the upper layer once it has been handled. When
+	// the frame is processed upon transaction commit, it will not have a
+	// receipt header anymore.
+	receipt, ok := f.Header.Contains(frame.Receipt)
+	f.Header.Del(frame.Receipt)
+
+	err := c.handle(f)
+	if !ok {
+		return err
+	}
+	if err != nil {
+		// the frame was rejected, its receipt id goes into the ERROR frame
+		f.Header.Set(frame.Receipt, receipt)
+		return err
+	}
+	return c.sendImmediately(frame.New(frame.RECEIPT,
+		frame.ReceiptId, receipt))
+}
+
+// Handle a frame received from a connected client, or contained in
+// a transaction that is being committed.
+func (c *Conn) handle(f *frame.Frame) error {
 	switch f.Command {
 	case frame.CONNECT, frame.STOMP:
 		return unexpectedCommand
@@ -535,30 +558,10 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	return nil
 }
 
-// Sends a RECEIPT frame to the client if the frame f contains
-// a receipt header. If the frame does contain a receipt header,
-// it will be removed from the frame.
-func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
-	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
-		// Remove the receipt header from the frame. This is handy
-		// for transactions, because the frame has its receipt
-		// header removed prior to entering the transaction store.
-		// When the frame is processed upon transaction commit, it
-		// will not have a receipt header anymore.
-		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
-	}
-	return nil
-}
-
 func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
-	// Ignore the error condition if we cannot send a RECEIPT frame,
-	// as the connection is about to close anyway.
-	_ = c.sendReceiptImmediately(f)
 	return nil
 }
 
@@ -566,12 +569,6 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-
 		return c.txStore.Begin(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -581,16 +578,11 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
 			// header (and its receipt header as well, if it had one).
-			return c.stateFunc(c, f)
+			return c.handle(f)
 		})
 	}
 	return missingHeader(frame.Transaction)
@@ -600,11 +592,6 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Abort(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -696,12 +683,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -734,12 +715,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -775,15 +750,9 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b1f7e96fcced911b4befa6cf1bd4abc14724f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/31] fix: a client still received messages after its
 DISCONNECT

---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 6f4e534..b0196a2 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -260,6 +260,10 @@ func (c *Conn) processLoop() {
 				c.sendErrorImmediately(err, f)
 				return
 			}
+			if c.closed {
+				// the client has disconnected
+				return
+			}
 
 		case sub, ok := <-c.subChannel:
 			if !ok {
@@ -562,6 +566,7 @@ func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
+	c.closed = true
 	return nil
 }
 
-- 
2.43.0


From a48d21a82aa9c3a02f25ede5be6c5d996ea5e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 10/31] fix: a queue message that could not be written to the
 client was lost

---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index b0196a2..3def6e4 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -293,6 +293,10 @@ func (c *Conn) processLoop() {
 				// write the frame to the client
 				err := c.writer.Write(sub.frame)
 				if err != nil {
+					// the message has not been delivered, so
+					// it must be requeued by the clean up
+					c.subList.Add(sub)
+
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-- 
2.43.0


From e25fb0cb03231e29488dc8b08af252624b8ec472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 11/31] fix: the read go routine of a closed connection could
 stay behind

---
 server/client/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 3def6e4..f7e2212 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -39,6 +39,7 @@ type Conn struct {
 	subList        *SubscriptionList                   // List of subscriptions requiring acknowledgement
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	validator      stomp.Validator                     // For validating STOMP frames
+	done           chan struct{}                       // Closed when no more frames are processed
 	log            stomp.Logger
 }
 
@@ -58,6 +59,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
+		done:           make(chan struct{}),
 		log:            config.Logger(),
 	}
 	go c.readLoop()
@@ -178,7 +180,11 @@ func (c *Conn) readLoop() {
 		// Add the frame to the read channel. Note that this will block
 		// if we are reading from the client quicker than the server
 		// can process frames.
-		c.readChannel <- f
+		select {
+		case c.readChannel <- f:
+		case <-c.done:
+			return
+		}
 	}
 }
 
@@ -338,6 +344,9 @@ func (c *Conn) processLoop() {
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
 func (c *Conn) cleanupConn() {
+	// the read go routine might be waiting for a frame to be processed
+	close(c.done)
+
 	// clean up any pending transactions
 	c.txStore.Init()
 
-- 
2.43.0


From 64b288994b304af7f39efb47faf658e64cdeb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 12/31] fix: the queue storage was never started

---
 server/processor.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server/processor.go b/server/processor.go
index 291845a..06caf8c 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -27,11 +27,12 @@ func newRequestProcessor(server *Server) *requestProcessor {
 		tm:     topic.NewManager(),
 	}
 
-	if server.QueueStorage == nil {
-		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
-	} else {
-		proc.qm = queue.NewManager(server.QueueStorage)
+	var storage queue.Storage = server.QueueStorage
+	if storage == nil {
+		storage = queue.NewMemoryQueueStorage()
 	}
+	storage.Start()
+	proc.qm = queue.NewManager(storage)
 
 	return proc
 }
-- 
2.43.0


From 88cb6df133570f7b9d99e6012ea189e4c2193372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 13/31] fix: a client that does not read blocked the server,
 and traffic in both directions deadlocked it

---
 server/client/conn.go         | 217 +++++++++++++++-------------------
 server/client/outbox.go       |  72 +++++++++++
 server/client/subscription.go |   4 +-
 3 files changed, 168 insertions(+), 125 deletions(-)
 create mode 100644 server/client/outbox.go

diff --git a/server/client/conn.go b/server/client/conn.go
index f7e2212..7abb46d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -15,7 +15,7 @@ import (
 // before a disconnect occurs. If the client cannot keep
 // up with the server, we do not want the server to backlog
 // pending frames indefinitely.
-const maxPendingWrites = 16
+const maxPendingWrites = 65536
 
 // Maximum number of pending frames allowed before the read
 // go routine starts blocking.
@@ -27,8 +27,7 @@ type Conn struct {
 	rw             net.Conn                            // Network connection to client
 	writer         *frame.Writer                       // Writes STOMP frames directly to the network connection
 	requestChannel chan Request                        // For sending requests to upper layer
-	subChannel     chan *Subscription                  // Receives subscription messages for client
-	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
+	outbox         *outbox                             // Receives messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
@@ -53,8 +52,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		config:         config,
 		rw:             rw,
 		requestChannel: ch,
-		subChannel:     make(chan *Subscription, maxPendingWrites),
-		writeChannel:   make(chan *frame.Frame, maxPendingWrites),
+		outbox:         newOutbox(),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
@@ -70,9 +68,17 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 // Write a frame to the connection without requiring
 // any acknowledgement.
 func (c *Conn) Send(f *frame.Frame) {
-	// Place the frame on the write channel. If the
-	// write channel is full, the caller will block.
-	c.writeChannel <- f
+	c.put(outgoing{frame: f})
+}
+
+// Place a frame on the outbox. The caller never blocks.
+func (c *Conn) put(item outgoing) {
+	if !c.outbox.put(item) {
+		// The client does not keep up. Closing the network connection
+		// also ends a write operation in progress.
+		c.log.Errorf("too many pending frames: %s", c.rw.RemoteAddr())
+		c.rw.Close()
+	}
 }
 
 // Send and ERROR message to the client. The client
@@ -205,15 +211,24 @@ func (c *Conn) processLoop() {
 		}
 
 		select {
-		case f, ok := <-c.writeChannel:
+		case <-c.outbox.ready:
+			item, ok := c.outbox.get()
 			if !ok {
-				// write channel has been closed, so
-				// exit go-routine (after cleaning up)
-				return
+				continue
 			}
+			f, sub := item.frame, item.sub
 
-			// have a frame to the client with
-			// no acknowledgement required (topic)
+			// there is the possibility that the subscription
+			// has been unsubscribed just prior to receiving
+			// this, so we check
+			// (its id might be in use again by a new subscription)
+			if sub != nil && c.subs[sub.id] != sub {
+				if item.isQueue {
+					// Subscription no longer exists, requeue
+					c.requestChannel <- Request{Op: RequeueOp, Frame: f}
+				}
+				continue
+			}
 
 			// stop the heart-beat timer
 			if timer != nil {
@@ -221,23 +236,59 @@ func (c *Conn) processLoop() {
 				timer = nil
 			}
 
-			c.allocateMessageId(f, nil)
+			if item.isQueue {
+				// have a frame to the client which requires
+				// acknowledgement to the upper layer
 
-			// write the frame to the client
-			err := c.writer.Write(f)
-			if err != nil {
-				// if there is an error writing to
-				// the client, there is not much
-				// point trying to send an ERROR frame,
-				// so just exit go-routine (after cleaning up)
-				return
-			}
+				// allocate a message-id, note that the
+				// subscription id has already been set
+				c.allocateMessageId(f, sub)
 
-			// if the frame just sent to the client is an error
-			// frame, we disconnect
-			if f.Command == frame.ERROR {
-				// sent an ERROR frame, so disconnect
-				return
+				// write the frame to the client
+				err := c.writer.Write(f)
+				if err != nil {
+					// the message has not been delivered, so
+					// it must be requeued by the clean up
+					c.subList.Add(sub)
+
+					// if there is an error writing to
+					// the client, there is not much
+					// point trying to send an ERROR frame,
+					// so just exit go-routine (after cleaning up)
+					return
+				}
+
+				if sub.ack == frame.AckAuto {
+					// subscription does not require acknowledgement,
+					// so send the subscription back the upper layer
+					// straight away
+					sub.frame = nil
+					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+				} else {
+					// subscription requires acknowledgement
+					c.subList.Add(sub)
+				}
+			} else {
+				// have a frame to the client with
+				// no acknowledgement required (topic)
+				c.allocateMessageId(f, nil)
+
+				// write the frame to the client
+				err := c.writer.Write(f)
+				if err != nil {
+					// if there is an error writing to
+					// the client, there is not much
+					// point trying to send an ERROR frame,
+					// so just exit go-routine (after cleaning up)
+					return
+				}
+
+				// if the frame just sent to the client is an error
+				// frame, we disconnect
+				if f.Command == frame.ERROR {
+					// sent an ERROR frame, so disconnect
+					return
+				}
 			}
 
 		case f, ok := <-c.readChannel:
@@ -271,60 +322,6 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-		case sub, ok := <-c.subChannel:
-			if !ok {
-				// subscription channel has been closed,
-				// so exit go-routine (after cleaning up)
-				return
-			}
-
-			// have a frame to the client which requires
-			// acknowledgement to the upper layer
-
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
-			// there is the possibility that the subscription
-			// has been unsubscribed just prior to receiving
-			// this, so we check
-			// (its id might be in use again by a new subscription)
-			if c.subs[sub.id] == sub {
-				// allocate a message-id, note that the
-				// subscription id has already been set
-				c.allocateMessageId(sub.frame, sub)
-
-				// write the frame to the client
-				err := c.writer.Write(sub.frame)
-				if err != nil {
-					// the message has not been delivered, so
-					// it must be requeued by the clean up
-					c.subList.Add(sub)
-
-					// if there is an error writing to
-					// the client, there is not much
-					// point trying to send an ERROR frame,
-					// so just exit go-routine (after cleaning up)
-					return
-				}
-
-				if sub.ack == frame.AckAuto {
-					// subscription does not require acknowledgement,
-					// so send the subscription back the upper layer
-					// straight away
-					sub.frame = nil
-					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
-				} else {
-					// subscription requires acknowledgement
-					c.subList.Add(sub)
-				}
-			} else {
-				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-			}
-
 		case _ = <-timerChannel:
 			// stop the heart-beat timer
 			if timer != nil {
@@ -350,11 +347,8 @@ func (c *Conn) cleanupConn() {
 	// clean up any pending transactions
 	c.txStore.Init()
 
-	c.discardWriteChannelFrames()
-
 	// Unsubscribe every subscription known to the upper layer.
-	// This should be done before cleaning up the subscription
-	// channel. If we requeued messages before doing this,
+	// This should be done before cleaning up the outbox. If we requeued messages before doing this,
 	// we might end up getting them back again.
 	for _, sub := range c.subs {
 		// Note that we only really need to send a request if the
@@ -372,52 +366,29 @@ func (c *Conn) cleanupConn() {
 		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
 	}
 
-	// empty the subscription and write queue
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
+	// empty the outbox
+	c.cleanupOutbox()
 
 	// Tell the upper layer we are now disconnected
 	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
 
-	// empty the subscription and write queue one more time
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
+	// empty the outbox one more time
+	c.cleanupOutbox()
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 }
 
-// Discard anything on the write channel. These frames
-// do not get acknowledged, and are either topic MESSAGE
-// frames or ERROR frames.
-func (c *Conn) discardWriteChannelFrames() {
-	for finished := false; !finished; {
-		select {
-		case _, ok := <-c.writeChannel:
-			if !ok {
-				finished = true
-			}
-
-		default:
-			finished = true
+// Empty the outbox. Frames that were taken from a queue are
+// requeued to the upper layer, all others are discarded.
+func (c *Conn) cleanupOutbox() {
+	for {
+		item, ok := c.outbox.get()
+		if !ok {
+			return
 		}
-	}
-}
-
-func (c *Conn) cleanupSubChannel() {
-	// Read the subscription channel until it is empty.
-	// Each frame should be requeued to the upper layer.
-	for finished := false; !finished; {
-		select {
-		case sub, ok := <-c.subChannel:
-			if !ok {
-				finished = true
-			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-			}
-
-		default:
-			finished = true
+		if item.isQueue {
+			c.requestChannel <- Request{Op: RequeueOp, Frame: item.frame}
 		}
 	}
 }
diff --git a/server/client/outbox.go b/server/client/outbox.go
new file mode 100644
index 0000000..39104ff
--- /dev/null
+++ b/server/client/outbox.go
@@ -0,0 +1,72 @@
+package client
+
+import (
+	"sync"
+
+	"github.com/go-stomp/stomp/v3/frame"
+)
+
+// A frame waiting to be written to the client.
+type outgoing struct {
+	frame   *frame.Frame
+	sub     *Subscription // subscription the frame is for, can be nil
+	isQueue bool          // frame was taken from a queue
+}
+
+// The frames waiting to be written to the client. The upper layer never blocks
+// when it adds a frame: if it did, a client that does not read would hold up
+// all other clients, and a connection waiting for the upper layer to accept a
+// request would deadlock with it.
+type outbox struct {
+	ready chan struct{} // receives a value when there is something to get
+
+	mu    sync.Mutex
+	items []outgoing
+	stuck bool // too many items, no more are accepted
+}
+
+func newOutbox() *outbox {
+	return &outbox{ready: make(chan struct{}, 1)}
+}
+
+// Adds a frame. Frames that do not come from a queue are discarded if there are
+// too many of them already, and put returns false when that happens first.
+func (b *outbox) put(item outgoing) bool {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if !item.isQueue {
+		if b.stuck {
+			return true
+		}
+		if len(b.items) >= maxPendingWrites {
+			b.stuck = true
+			return false
+		}
+	}
+	b.items = append(b.items, item)
+	b.signal()
+	return true
+}
+
+// Removes and returns the frame that was added first.
+func (b *outbox) get() (item outgoing, ok bool) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if len(b.items) == 0 {
+		return item, false
+	}
+	item = b.items[0]
+	b.items[0] = outgoing{}
+	b.items = b.items[1:]
+	if len(b.items) > 0 {
+		b.signal()
+	}
+	return item, true
+}
+
+func (b *outbox) signal() {
+	select {
+	case b.ready <- struct{}{}:
+	default:
+	}
+}
diff --git a/server/client/subscription.go b/server/client/subscription.go
index a9f1757..34f390e 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -62,7 +62,7 @@ func (s *Subscription) SendQueueFrame(f *frame.Frame) {
 
 	// let the connection deal with the subscription
 	// acknowledgement
-	s.conn.subChannel <- s
+	s.conn.put(outgoing{frame: f, sub: s, isQueue: true})
 }
 
 // Send a message frame to the client, as part of this
@@ -73,7 +73,7 @@ func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
-	s.conn.writeChannel <- f
+	s.conn.put(outgoing{frame: f, sub: s})
 }
 
 func (s *Subscription) setSubscriptionHeader(f *frame.Frame) {
-- 
2.43.0


From 1d259ed40a939fd7fc1844d833e998d710715218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 14/31] fix: a queue message on its way to a closing connection
 was lost

---
 server/client/conn.go | 22 ++++++++++++++--------
 server/processor.go   |  3 +++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7abb46d..c4064fd 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -39,6 +39,7 @@ type Conn struct {
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	validator      stomp.Validator                     // For validating STOMP frames
 	done           chan struct{}                       // Closed when no more frames are processed
+	disconnected   chan struct{}                       // Closed when the upper layer knows that we are disconnected
 	log            stomp.Logger
 }
 
@@ -58,6 +59,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
 		done:           make(chan struct{}),
+		disconnected:   make(chan struct{}),
 		log:            config.Logger(),
 	}
 	go c.readLoop()
@@ -348,8 +350,8 @@ func (c *Conn) cleanupConn() {
 	c.txStore.Init()
 
 	// Unsubscribe every subscription known to the upper layer.
-	// This should be done before cleaning up the outbox. If we requeued messages before doing this,
-	// we might end up getting them back again.
+	// This should be done before requeueing messages. If we requeued
+	// messages before doing this, we might end up getting them back again.
 	for _, sub := range c.subs {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
@@ -360,6 +362,11 @@ func (c *Conn) cleanupConn() {
 	// Clear out the map of subscriptions
 	c.subs = nil
 
+	// Tell the upper layer we are now disconnected, and wait until
+	// it knows: no more frames are placed on the outbox after that.
+	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	<-c.disconnected
+
 	// Every subscription requiring acknowledgement has a frame
 	// that needs to be requeued in the upper layer
 	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
@@ -369,16 +376,15 @@ func (c *Conn) cleanupConn() {
 	// empty the outbox
 	c.cleanupOutbox()
 
-	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
-
-	// empty the outbox one more time
-	c.cleanupOutbox()
-
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 }
 
+// Disconnected is called by the upper layer in response to DisconnectedOp.
+func (c *Conn) Disconnected() {
+	close(c.disconnected)
+}
+
 // Empty the outbox. Frames that were taken from a queue are
 // requeued to the upper layer, all others are discarded.
 func (c *Conn) cleanupOutbox() {
diff --git a/server/processor.go b/server/processor.go
index 06caf8c..5c74ca3 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -90,6 +90,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			r.Conn.Disconnected()
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 42c409a6c8d8c490992520ac32b1cb5016791bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 15/31] fix: a client sending a large frame slowly was
 disconnected as if it were silent

---
 server/client/conn.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index c4064fd..7a1dfbd 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -119,22 +119,34 @@ func (c *Conn) sendImmediately(f *frame.Frame) error {
 	return c.writer.Write(f)
 }
 
+// Reads from the network connection, and fails if nothing at all has been
+// received for the timeout, or never if it is zero. As a frame might take
+// longer than that to arrive, the timeout does not apply to entire frames.
+type timeoutReader struct {
+	conn    net.Conn
+	timeout time.Duration
+}
+
+func (r *timeoutReader) Read(p []byte) (int, error) {
+	if r.timeout == 0 {
+		// infinite timeout
+		r.conn.SetReadDeadline(time.Time{})
+	} else {
+		r.conn.SetReadDeadline(time.Now().Add(r.timeout))
+	}
+	return r.conn.Read(p)
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
 // processLoop go-routine. This keeps all processing of frames for
 // this connection on the one go-routine and avoids race conditions.
 func (c *Conn) readLoop() {
-	reader := frame.NewReader(c.rw)
+	activity := &timeoutReader{conn: c.rw}
+	reader := frame.NewReader(activity)
 	expectingConnect := true
-	readTimeout := time.Duration(0)
 	for {
-		if readTimeout == time.Duration(0) {
-			// infinite timeout
-			c.rw.SetReadDeadline(time.Time{})
-		} else {
-			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
-		}
 		f, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
@@ -179,7 +191,7 @@ func (c *Conn) readLoop() {
 					cx = min
 				}
 
-				readTimeout = time.Duration(cx) * time.Millisecond
+				activity.timeout = 2 * time.Duration(cx) * time.Millisecond
 
 				expectingConnect = false
 			}
-- 
2.43.0


From 9e51dd57510776e80389f5752b28add7ce4cfe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 16/31] fix: a frame header alone could make the reader
 allocate 4 GiB

---
 frame/reader.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/frame/reader.go b/frame/reader.go
index ded3dfe..8cfd1ba 100644
--- a/frame/reader.go
+++ b/frame/reader.go
@@ -15,6 +15,9 @@ const (
 	nullByte   = byte(0)
 )
 
+// memory allocated for a body before any of it has been received
+const maxBodyAllocation = 1 << 20
+
 var (
 	ErrInvalidCommand     = errors.New("invalid command")
 	ErrInvalidFrameFormat = errors.New("invalid frame format")
@@ -109,14 +112,16 @@ func (r *Reader) Read() (*Frame, error) {
 		return nil, err
 	} else if ok {
 		// content length specified in the header, so use that
-		f.Body = make([]byte, contentLength)
-		for bytesRead := 0; bytesRead < contentLength; {
-			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
-			if err != nil {
-				return nil, err
-			}
-			bytesRead += n
+		// (but do not take its word for how much memory to allocate)
+		capacity := contentLength
+		if capacity > maxBodyAllocation {
+			capacity = maxBodyAllocation
+		}
+		body := bytes.NewBuffer(make([]byte, 0, capacity))
+		if _, err := io.CopyN(body, r.reader, int64(contentLength)); err != nil {
+			return nil, err
 		}
+		f.Body = body.Bytes()
 
 		// read the next byte and verify that it is a null byte
 		terminator, err := r.reader.ReadByte()
-- 
2.43.0


From c16bb1764839879612aa22a986168ff49953cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 17/31] fix: the write buffer had the size of the read buffer

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 94c3108..4dabb6d 100644
--- a/conn.go
+++ b/conn.go
@@ -118,7 +118,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	}
 
 	if options.WriteBufferSize > 0 {
-		writer = frame.NewWriterSize(conn, options.ReadBufferSize)
+		writer = frame.NewWriterSize(conn, options.WriteBufferSize)
 	}
 
 	readChannelCapacity := 20
-- 
2.43.0


From 3a779ffc2c0d8ea6b3499000041b363e385adc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 18/31] fix: disabling heart-beats on one side was not
 respected by the client

---
 conn.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4dabb6d..6b75df7 100644
--- a/conn.go
+++ b/conn.go
@@ -209,9 +209,16 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		// There are no heart-beats in a direction that either
+		// side has disabled.
+		if options.ReadTimeout < time.Millisecond || readTimeout <= 0 {
+			readTimeout = 0
+		} else if readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
+		if options.WriteTimeout < time.Millisecond {
+			writeTimeout = 0
+		}
 
 		c.readTimeout = readTimeout
 		c.writeTimeout = writeTimeout
-- 
2.43.0


From dff62666b8961e37c62aa9338d25d3d3034f8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 19/31] fix: failed dialling leaked the connection and ignored
 the context deadline in part

---
 conn.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 6b75df7..f534c99 100644
--- a/conn.go
+++ b/conn.go
@@ -71,7 +71,8 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	var dialer net.Dialer
+	c, err := dialer.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -82,11 +83,22 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 		return nil, err
 	}
 
+	if deadline, ok := ctx.Deadline(); ok {
+		// in addition to the read deadline of ConnectWithContext
+		c.SetWriteDeadline(deadline)
+		defer c.SetWriteDeadline(time.Time{})
+	}
+
 	// Add option to set host and make it the first option in list,
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
@@ -166,7 +178,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	if ok && isNetConn {
 		connection.SetReadDeadline(deadline)
 	}
-	
+
 	response, err := reader.Read()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 33d270e75f016a8ad124d0731d99451a76791743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 20/31] fix: operations of the client hung when a connection
 ended or a receipt timed out

---
 conn.go         | 257 ++++++++++++++++++++++++++++++------------------
 subscription.go |  37 +++----
 2 files changed, 180 insertions(+), 114 deletions(-)

diff --git a/conn.go b/conn.go
index f534c99..39627d3 100644
--- a/conn.go
+++ b/conn.go
@@ -50,6 +50,11 @@ type Conn struct {
 	hbGracePeriodMultiplier   float64
 	closed                    bool
 	closeMutex                *sync.Mutex
+	closedCh                  chan struct{} // closed when closed becomes true
+	closingCh                 chan struct{} // closed when the transport is about to be closed
+	closeOnce                 sync.Once
+	closeErr                  error
+	closeFrame                *frame.Frame // why the connection ended, for the subscriptions
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -116,6 +121,8 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c := &Conn{
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
+		closedCh:   make(chan struct{}),
+		closingCh:  make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -316,21 +323,70 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+		select {
+		case c.readCh <- f:
+		case <-c.closingCh:
+			close(c.readCh)
+			return
+		}
 	}
 }
 
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
-	channels := make(map[string]chan *frame.Frame)
+	subs := make(map[string]chan *frame.Frame)
+	receipts := make(map[string]chan *frame.Frame)
+
+	c.closeFrame = c.process(writer, subs, receipts)
 
+	// Everyone waiting for a response gets the reason for the end of the
+	// connection. Requests keep being answered until no more can follow.
+	for _, ch := range receipts {
+		ch <- c.closeFrame
+	}
+	refuse := func(req writeRequest) {
+		if req.Frame.Command == frame.SUBSCRIBE {
+			close(req.C)
+		} else if req.C != nil {
+			req.C <- c.closeFrame
+		}
+	}
+	go c.MustDisconnect()
+	for closed := false; !closed; {
+		select {
+		case req := <-c.writeCh:
+			refuse(req)
+		case <-c.closedCh:
+			closed = true
+		}
+	}
+	for len(c.writeCh) > 0 {
+		refuse(<-c.writeCh)
+	}
+
+	// closing the channel tells the subscription
+	for _, ch := range subs {
+		close(ch)
+	}
+}
+
+// process handles io with the server until the connection ends.
+// Returns the ERROR frame that ended it, or one made up for the purpose.
+func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *frame.Frame) *frame.Frame {
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
+	defer func() {
+		if readTimer != nil {
+			readTimer.Stop()
+		}
+		if writeTimer != nil {
+			writeTimer.Stop()
+		}
+	}()
 
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
@@ -345,16 +401,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		select {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
-			err := newErrorMessage("read timeout")
-			sendError(channels, err)
-			return
+			return errorFrame(newErrorMessage("read timeout"))
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(channels, err)
-				return
+				return errorFrame(err)
 			}
 			writeTimer = nil
 			writeTimeoutChannel = nil
@@ -368,9 +421,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 			if !ok {
-				err := newErrorMessage("connection closed")
-				sendError(channels, err)
-				return
+				return errorFrame(newErrorMessage("connection closed"))
 			}
 
 			if f == nil {
@@ -381,56 +432,46 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			switch f.Command {
 			case frame.RECEIPT:
 				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := channels[id]; ok {
+					if ch, ok := receipts[id]; ok {
 						ch <- f
-						delete(channels, id)
-						close(ch)
+						delete(receipts, id)
+					} else if ch, ok := subs[id]; ok {
+						if !c.deliver(ch, f) {
+							return errorFrame(newErrorMessage("connection closed"))
+						}
+						delete(subs, id)
 					}
 				} else {
-					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, err)
-					return
+					return errorFrame(&Error{Message: "missing receipt-id", Frame: f})
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range channels {
-					ch <- f
-					close(ch)
-				}
-
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
-				return
+				return f
 
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
-					if ch, ok := channels[id]; ok {
-						ch <- f
+					if ch, ok := subs[id]; ok {
+						if !c.deliver(ch, f) {
+							return errorFrame(newErrorMessage("connection closed"))
+						}
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
 				}
 			}
 
-		case req, ok := <-c.writeCh:
+		case req := <-c.writeCh:
 			// stop the write timeout
 			if writeTimer != nil {
 				writeTimer.Stop()
 				writeTimer = nil
 				writeTimeoutChannel = nil
 			}
-			if !ok {
-				sendError(channels, errors.New("write channel closed"))
-				return
-			}
-			if req.C != nil {
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
-					channels[receipt] = req.C
+					receipts[receipt] = req.C
 				}
 			}
 
@@ -443,19 +484,22 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				// however, don't send the frame, it's most likely an invalid destination
 				// on the broker.
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					channels[replyTo] = req.C
+					subs[replyTo] = req.C
 					sendFrame = false
 				} else {
 					id, _ := req.Frame.Header.Contains(frame.Id)
-					channels[id] = req.C
+					subs[id] = req.C
 				}
 
 			case frame.UNSUBSCRIBE:
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					ch, ok := channels[replyTo]
+					ch, ok := subs[replyTo]
 					if ok {
-						delete(channels, replyTo)
-						close(ch)
+						// there is no RECEIPT to wait for
+						if !c.deliver(ch, frame.New(frame.RECEIPT)) {
+							return errorFrame(newErrorMessage("connection closed"))
+						}
+						delete(subs, replyTo)
 					}
 					sendFrame = false
 				} else {
@@ -471,22 +515,45 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, err)
-					return
+					return errorFrame(err)
 				}
 			}
 		}
 	}
 }
 
-// Send an error to all receipt channels.
-func sendError(m map[string]chan *frame.Frame, err error) {
-	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, ch := range m {
-		ch <- frame
+// Passes a frame to a subscription. Returns false if the connection
+// was closed before the subscription could accept it.
+func (c *Conn) deliver(ch chan *frame.Frame, f *frame.Frame) bool {
+	select {
+	case ch <- f:
+		return true
+	case <-c.closingCh:
+		return false
 	}
 }
 
+// Makes an ERROR frame for those waiting for a response.
+func errorFrame(err error) *frame.Frame {
+	return frame.New(frame.ERROR, frame.Message, err.Error())
+}
+
+// setClosed is called with closeMutex held, no request
+// is put in writeCh afterwards.
+func (c *Conn) setClosed() {
+	c.closed = true
+	close(c.closedCh)
+}
+
+// closeTransport closes the underlying connection once.
+func (c *Conn) closeTransport() error {
+	c.closeOnce.Do(func() {
+		close(c.closingCh)
+		c.closeErr = c.conn.Close()
+	})
+	return c.closeErr
+}
+
 // Disconnect will disconnect from the STOMP server. This function
 // follows the STOMP standard's recommended protocol for graceful
 // disconnection: it sends a DISCONNECT frame with a receipt header
@@ -495,8 +562,8 @@ func sendError(m map[string]chan *frame.Frame, err error) {
 // to the server will fail.
 func (c *Conn) Disconnect() error {
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
 	if c.closed {
+		c.closeMutex.Unlock()
 		return nil
 	}
 
@@ -504,23 +571,35 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
-	c.writeCh <- writeRequest{
+	request := writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
-		C:     ch,
+		C:     make(chan *frame.Frame, 1),
 	}
 
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
-	if err == nil {
-		c.closed = true
-		return c.conn.Close()
+	timeout := c.disconnectReceiptTimeout
+	start := time.Now()
+	err := sendDataToWriteChWithTimeout(c.writeCh, request, timeout)
+	if timeout > 0 && err == nil {
+		if timeout -= time.Since(start); timeout <= 0 {
+			err = ErrDisconnectReceiptTimeout
+		}
 	}
 
-	if err == ErrDisconnectReceiptTimeout {
-		c.closed = true
-		_ = c.conn.Close()
+	// Release the mutex while waiting for the receipt, otherwise those who
+	// should process the messages before it can be kept from doing so.
+	c.setClosed()
+	c.closeMutex.Unlock()
+
+	if err != nil {
+		err = ErrDisconnectReceiptTimeout
+	} else {
+		err = readReceiptWithTimeout(request.C, timeout, ErrDisconnectReceiptTimeout)
 	}
 
+	closeErr := c.closeTransport()
+	if err == nil {
+		err = closeErr
+	}
 	return err
 }
 
@@ -528,17 +607,17 @@ func (c *Conn) Disconnect() error {
 // This method should be used only as last resort when there are fatal
 // network errors that prevent to do a proper disconnect from the server.
 func (c *Conn) MustDisconnect() error {
+	// ends whatever the owner of the mutex is waiting for
+	err := c.closeTransport()
+
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
 		return nil
 	}
 
-	// just close writeCh
-	close(c.writeCh)
-
-	c.closed = true
-	return c.conn.Close()
+	c.setClosed()
+	return err
 }
 
 // Send sends a message to the STOMP server, which in turn sends the message to the specified destination.
@@ -551,48 +630,42 @@ func (c *Conn) MustDisconnect() error {
 // Any number of options can be specified in opts. See the examples for usage. Options include whether
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
+	request, err := c.send(destination, contentType, body, opts)
+	if err != nil {
+		return err
+	}
+
+	if request.C != nil {
+		// receipt required
+		return readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
+	}
+
+	return nil
+}
+
+func (c *Conn) send(destination, contentType string, body []byte, opts []func(*frame.Frame) error) (writeRequest, error) {
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		return ErrAlreadyClosed
+		return writeRequest{}, ErrAlreadyClosed
 	}
 
 	f, err := createSendFrame(destination, contentType, body, opts)
 	if err != nil {
-		return err
+		return writeRequest{}, err
 	}
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
+	request := writeRequest{Frame: f}
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame),
-		}
-
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
-
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
-		if err != nil {
-			return err
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
-
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
+		request.C = make(chan *frame.Frame, 1)
 	}
 
-	return nil
+	return request, sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
@@ -657,7 +730,6 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 	c.closeMutex.Lock()
 	if c.closed {
 		c.closeMutex.Unlock()
-		c.conn.Close()
 		return ErrClosedUnexpectedly
 	}
 
@@ -669,7 +741,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
@@ -717,7 +789,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		c.conn.Close()
 		return nil, ErrClosedUnexpectedly
 	}
 
diff --git a/subscription.go b/subscription.go
index 8ca54af..61f9870 100644
--- a/subscription.go
+++ b/subscription.go
@@ -173,27 +173,8 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 	for {
 		f, ok := <-ch
 		if !ok {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				msg := s.subscriptionErrorMessage("channel read failed")
-				s.closeChannel(msg)
-			}
-			return
-		}
-
-		if f.Command == frame.MESSAGE {
-			destination := f.Header.Get(frame.Destination)
-			contentType := f.Header.Get(frame.ContentType)
-			msg := &Message{
-				Destination:  destination,
-				ContentType:  contentType,
-				Conn:         s.conn,
-				Subscription: s,
-				Header:       f.Header,
-				Body:         f.Body,
-			}
-			s.C <- msg
-		} else if f.Command == frame.ERROR {
+			// the connection has ended
+			f = s.conn.closeFrame
 			state := atomic.LoadInt32(&s.state)
 			if state == subStateActive || state == subStateClosing {
 				message, _ := f.Header.Contains(frame.Message)
@@ -217,6 +198,20 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 				s.closeChannel(msg)
 			}
 			return
+		}
+
+		if f.Command == frame.MESSAGE {
+			destination := f.Header.Get(frame.Destination)
+			contentType := f.Header.Get(frame.ContentType)
+			msg := &Message{
+				Destination:  destination,
+				ContentType:  contentType,
+				Conn:         s.conn,
+				Subscription: s,
+				Header:       f.Header,
+				Body:         f.Body,
+			}
+			s.C <- msg
 		} else if f.Command == frame.RECEIPT {
 			state := atomic.LoadInt32(&s.state)
 			if state == subStateActive || state == subStateClosing {
-- 
2.43.0


From 3e3397668b1bc0ae45c3e0b13cf6f96e75ffb5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 21/31] fix: unsubscribing could hang, panic or report success
 without a confirmation

---
 conn.go         |  4 +--
 subscription.go | 94 ++++++++++++++++++++++++-------------------------
 2 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/conn.go b/conn.go
index 39627d3..0962cc6 100644
--- a/conn.go
+++ b/conn.go
@@ -827,7 +827,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -835,8 +834,7 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		closed:                    make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 	go sub.readLoop(ch)
diff --git a/subscription.go b/subscription.go
index 61f9870..8df5424 100644
--- a/subscription.go
+++ b/subscription.go
@@ -1,7 +1,6 @@
 package stomp
 
 import (
-	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -28,9 +27,9 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
-	closeOnce                 sync.Once
+	closeMutex                sync.Mutex    // for closing C
+	closed                    chan struct{} // closed after C
+	closeErr                  error         // why C was closed, valid once closed is
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -63,8 +62,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -84,10 +82,17 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
+	// the I/O goroutine sets the receipt
+	f.Header.Del(frame.Receipt)
+
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
+	}
+
 	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+	if err != nil {
+		// the end of the connection closes the channel
 		return err
 	}
 
@@ -96,41 +101,34 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	// for the resulting RECEIPT.
 	//
 	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	// MESSAGEs or ERRORs from another goroutine, so wait for the terminal
+	// state transition instead.
+	var timeout <-chan time.Time
+	if s.unsubscribeReceiptTimeout > 0 {
+		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
+		defer timer.Stop()
+		timeout = timer.C
+	}
+
+	select {
+	case <-s.closed:
+		return s.closeErr
+	case <-timeout:
 	}
-	s.closeMutex.Unlock()
-	return err
-}
 
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
-		return nil
+	// The transition can race with the timeout, so make sure
+	// the channel is still available.
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
+	if atomic.LoadInt32(&s.state) == subStateClosed {
+		return s.closeErr
 	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
 	select {
-	case <-waitChan:
-		return nil
-	case <-time.After(timeout):
-		return &ErrUnsubscribeReceiptTimeout
+	case s.C <- s.subscriptionErrorMessage("channel unsubscribe receipt timeout"):
+	default:
+		// nobody reads the channel
 	}
+	return &ErrUnsubscribeReceiptTimeout
 }
 
 // Read a message from the subscription. This is a convenience
@@ -151,14 +149,16 @@ func (s *Subscription) Read() (*Message, error) {
 }
 
 func (s *Subscription) closeChannel(msg *Message) {
-	s.closeOnce.Do(func() {
-		if msg != nil {
-			s.C <- msg
-		}
-		atomic.StoreInt32(&s.state, subStateClosed)
-		close(s.C)
-		s.closeCond.Broadcast()
-	})
+	if msg != nil {
+		s.closeErr = msg.Err
+		s.C <- msg
+	}
+
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
+	atomic.StoreInt32(&s.state, subStateClosed)
+	close(s.C)
+	close(s.closed)
 }
 
 func (s *Subscription) subscriptionErrorMessage(message string) *Message {
-- 
2.43.0


From 2db1804b3545af9771e7c320ca91485cbe67bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 22/31] fix: receipts of other requests ended subscriptions of
 the same id

---
 conn.go | 75 +++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/conn.go b/conn.go
index 0962cc6..e87d6bf 100644
--- a/conn.go
+++ b/conn.go
@@ -335,14 +335,18 @@ func readLoop(c *Conn, reader *frame.Reader) {
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
-	subs := make(map[string]chan *frame.Frame)
-	receipts := make(map[string]chan *frame.Frame)
+	routes := routes{
+		subs:     make(map[string]chan *frame.Frame),
+		open:     make(map[chan *frame.Frame]bool),
+		receipts: make(map[string]chan *frame.Frame),
+		unsubs:   make(map[string]unsubscribing),
+	}
 
-	c.closeFrame = c.process(writer, subs, receipts)
+	c.closeFrame = c.process(writer, &routes)
 
 	// Everyone waiting for a response gets the reason for the end of the
 	// connection. Requests keep being answered until no more can follow.
-	for _, ch := range receipts {
+	for _, ch := range routes.receipts {
 		ch <- c.closeFrame
 	}
 	refuse := func(req writeRequest) {
@@ -366,14 +370,39 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 
 	// closing the channel tells the subscription
-	for _, ch := range subs {
+	for ch := range routes.open {
 		close(ch)
 	}
 }
 
+// Where the frames from the server go.
+type routes struct {
+	subs     map[string]chan *frame.Frame // by subscription id
+	open     map[chan *frame.Frame]bool   // all subscriptions, even if their id is in use again
+	receipts map[string]chan *frame.Frame // by receipt id, except for UNSUBSCRIBE
+	unsubs   map[string]unsubscribing     // by receipt id, for UNSUBSCRIBE
+}
+
+type unsubscribing struct {
+	id string
+	ch chan *frame.Frame
+}
+
+func (r *routes) subscribe(id string, ch chan *frame.Frame) {
+	r.subs[id] = ch
+	r.open[ch] = true
+}
+
+func (r *routes) unsubscribe(id string, ch chan *frame.Frame) {
+	if r.subs[id] == ch {
+		delete(r.subs, id)
+	}
+	delete(r.open, ch)
+}
+
 // process handles io with the server until the connection ends.
 // Returns the ERROR frame that ended it, or one made up for the purpose.
-func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *frame.Frame) *frame.Frame {
+func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -432,14 +461,15 @@ func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *fra
 			switch f.Command {
 			case frame.RECEIPT:
 				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := receipts[id]; ok {
+					if ch, ok := routes.receipts[id]; ok {
 						ch <- f
-						delete(receipts, id)
-					} else if ch, ok := subs[id]; ok {
-						if !c.deliver(ch, f) {
+						delete(routes.receipts, id)
+					} else if unsub, ok := routes.unsubs[id]; ok {
+						if !c.deliver(unsub.ch, f) {
 							return errorFrame(newErrorMessage("connection closed"))
 						}
-						delete(subs, id)
+						delete(routes.unsubs, id)
+						routes.unsubscribe(unsub.id, unsub.ch)
 					}
 				} else {
 					return errorFrame(&Error{Message: "missing receipt-id", Frame: f})
@@ -451,7 +481,7 @@ func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *fra
 
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
-					if ch, ok := subs[id]; ok {
+					if ch, ok := routes.subs[id]; ok {
 						if !c.deliver(ch, f) {
 							return errorFrame(newErrorMessage("connection closed"))
 						}
@@ -471,7 +501,7 @@ func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *fra
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
-					receipts[receipt] = req.C
+					routes.receipts[receipt] = req.C
 				}
 			}
 
@@ -484,22 +514,22 @@ func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *fra
 				// however, don't send the frame, it's most likely an invalid destination
 				// on the broker.
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					subs[replyTo] = req.C
+					routes.subscribe(replyTo, req.C)
 					sendFrame = false
 				} else {
 					id, _ := req.Frame.Header.Contains(frame.Id)
-					subs[id] = req.C
+					routes.subscribe(id, req.C)
 				}
 
 			case frame.UNSUBSCRIBE:
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					ch, ok := subs[replyTo]
+					ch, ok := routes.subs[replyTo]
 					if ok {
 						// there is no RECEIPT to wait for
 						if !c.deliver(ch, frame.New(frame.RECEIPT)) {
 							return errorFrame(newErrorMessage("connection closed"))
 						}
-						delete(subs, replyTo)
+						routes.unsubscribe(replyTo, ch)
 					}
 					sendFrame = false
 				} else {
@@ -507,7 +537,16 @@ func (c *Conn) process(writer *frame.Writer, subs, receipts map[string]chan *fra
 					// is this trying to be too clever -- add a receipt
 					// header so that when the server responds with a
 					// RECEIPT frame, the corresponding channel will be closed
-					req.Frame.Header.Set(frame.Receipt, id)
+					receipt := id
+					_, pending := routes.receipts[receipt]
+					_, late := routes.unsubs[receipt]
+					if pending || late {
+						receipt = allocateId()
+					}
+					if ch, ok := routes.subs[id]; ok {
+						routes.unsubs[receipt] = unsubscribing{id, ch}
+					}
+					req.Frame.Header.Set(frame.Receipt, receipt)
 				}
 			}
 
-- 
2.43.0


From cb9f02049c4a1258e6807557b4e897cca33bee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 23/31] fix: the client missed heart-beats, or a slow frame
 made it disconnect from a live server

---
 conn.go | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index e87d6bf..f4a8778 100644
--- a/conn.go
+++ b/conn.go
@@ -55,6 +55,7 @@ type Conn struct {
 	closeOnce                 sync.Once
 	closeErr                  error
 	closeFrame                *frame.Frame // why the connection ended, for the subscriptions
+	lastRead                  atomic.Value // time.Time of the last data from the server
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -115,7 +116,6 @@ func Connect(conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error)
 }
 
 func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error) {
-	reader := frame.NewReader(conn)
 	writer := frame.NewWriter(conn)
 
 	c := &Conn{
@@ -132,8 +132,10 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 
 	c.log = options.Logger
 
+	c.lastRead.Store(time.Now())
+	reader := frame.NewReader(readWatcher{c})
 	if options.ReadBufferSize > 0 {
-		reader = frame.NewReaderSize(conn, options.ReadBufferSize)
+		reader = frame.NewReaderSize(readWatcher{c}, options.ReadBufferSize)
 	}
 
 	if options.WriteBufferSize > 0 {
@@ -310,6 +312,20 @@ func (c *Conn) Stats() ConnectionStats {
 	}
 }
 
+// readWatcher reads from the underlying connection
+// and remembers when something has arrived.
+type readWatcher struct {
+	c *Conn
+}
+
+func (w readWatcher) Read(p []byte) (int, error) {
+	n, err := w.c.conn.Read(p)
+	if n > 0 {
+		w.c.lastRead.Store(time.Now())
+	}
+	return n, err
+}
+
 // readLoop is a goroutine that reads frames from the
 // reader and places them onto a channel for processing
 // by the processLoop goroutine
@@ -429,6 +445,18 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 
 		select {
 		case <-readTimeoutChannel:
+			// The server is not silent if it is in the middle of a frame,
+			// or if its frames are still waiting for this goroutine.
+			limit := time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier)
+			idle := time.Since(c.lastRead.Load().(time.Time))
+			if len(c.readCh) > 0 {
+				idle = 0
+			}
+			if idle < limit {
+				readTimer.Reset(limit - idle)
+				continue
+			}
+
 			// read timeout, close the connection
 			return errorFrame(newErrorMessage("read timeout"))
 
@@ -492,12 +520,6 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 			}
 
 		case req := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -552,6 +574,12 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
 				err := writer.Write(req.Frame)
 				if err != nil {
 					return errorFrame(err)
-- 
2.43.0


From 6ea3d1dc85d752dde9bc9903ed9a11c87f56d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 24/31] fix: generated ids could repeat ids chosen by the
 caller

---
 conn.go |  8 ++++++--
 id.go   | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index f4a8778..8e236b7 100644
--- a/conn.go
+++ b/conn.go
@@ -727,8 +727,9 @@ func (c *Conn) send(destination, contentType string, body []byte, opts []func(*f
 	}
 
 	request := writeRequest{Frame: f}
-	if _, ok := f.Header.Contains(frame.Receipt); ok {
+	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
+		reserveId(receipt)
 		request.C = make(chan *frame.Frame, 1)
 	}
 
@@ -804,8 +805,9 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	if _, ok := f.Header.Contains(frame.Receipt); ok {
+	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
+		reserveId(receipt)
 		request := writeRequest{
 			Frame: f,
 			C:     make(chan *frame.Frame, 1),
@@ -887,6 +889,8 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 	if !ok {
 		id = allocateId()
 		subscribeFrame.Header.Add(frame.Id, id)
+	} else {
+		reserveId(id)
 	}
 
 	request := writeRequest{
diff --git a/id.go b/id.go
index cd84748..3c25836 100644
--- a/id.go
+++ b/id.go
@@ -15,3 +15,19 @@ func allocateId() string {
 	id := atomic.AddUint64(&_lastId, 1)
 	return strconv.FormatUint(id, 10)
 }
+
+// reserveId makes sure that allocateId does not return id, which
+// was chosen by the caller, from now on.
+func reserveId(id string) {
+	n, err := strconv.ParseUint(id, 10, 62)
+	if err != nil || strconv.FormatUint(n, 10) != id {
+		// not a possible result of allocateId
+		return
+	}
+	for {
+		last := atomic.LoadUint64(&_lastId)
+		if n <= last || atomic.CompareAndSwapUint64(&_lastId, last, n) {
+			return
+		}
+	}
+}
-- 
2.43.0


From 7aa36ed893223c0012f5bca83bbd734e3e263f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 25/31] fix: Disconnect could wait forever for a call that
 waits for the server

---
 conn.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 8e236b7..67709eb 100644
--- a/conn.go
+++ b/conn.go
@@ -621,6 +621,33 @@ func (c *Conn) closeTransport() error {
 	return c.closeErr
 }
 
+// lockWithin locks closeMutex. Its owner can be waiting for the server to read,
+// closing the underlying connection after the timeout ends that. Returns whether
+// this was not necessary.
+func (c *Conn) lockWithin(timeout time.Duration) bool {
+	if timeout <= 0 {
+		c.closeMutex.Lock()
+		return true
+	}
+
+	locked := make(chan struct{})
+	go func() {
+		c.closeMutex.Lock()
+		close(locked)
+	}()
+
+	timer := time.NewTimer(timeout)
+	defer timer.Stop()
+	select {
+	case <-locked:
+		return true
+	case <-timer.C:
+		_ = c.closeTransport()
+		<-locked
+		return false
+	}
+}
+
 // Disconnect will disconnect from the STOMP server. This function
 // follows the STOMP standard's recommended protocol for graceful
 // disconnection: it sends a DISCONNECT frame with a receipt header
@@ -628,11 +655,25 @@ func (c *Conn) closeTransport() error {
 // with the STOMP server is closed and any further attempt to write
 // to the server will fail.
 func (c *Conn) Disconnect() error {
-	c.closeMutex.Lock()
+	timeout := c.disconnectReceiptTimeout
+	start := time.Now()
+
+	inTime := c.lockWithin(timeout)
+	if !inTime && !c.closed {
+		c.setClosed()
+	}
 	if c.closed {
 		c.closeMutex.Unlock()
+		if !inTime {
+			return ErrDisconnectReceiptTimeout
+		}
 		return nil
 	}
+	if timeout > 0 {
+		if timeout -= time.Since(start); timeout <= 0 {
+			timeout = 1
+		}
+	}
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
@@ -643,8 +684,7 @@ func (c *Conn) Disconnect() error {
 		C:     make(chan *frame.Frame, 1),
 	}
 
-	timeout := c.disconnectReceiptTimeout
-	start := time.Now()
+	start = time.Now()
 	err := sendDataToWriteChWithTimeout(c.writeCh, request, timeout)
 	if timeout > 0 && err == nil {
 		if timeout -= time.Since(start); timeout <= 0 {
-- 
2.43.0


From 0a705b81fd57f97083374fd4e9c4d220208d34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 26/31] fix: topic messages lacked the ack header

The client needs it to acknowledge messages of a subscription which is not
in auto mode (STOMP 1.2), whether or not the server waits for it.
---
 server/client/conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7a1dfbd..97b8101 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -283,9 +283,9 @@ func (c *Conn) processLoop() {
 					c.subList.Add(sub)
 				}
 			} else {
-				// have a frame to the client with
-				// no acknowledgement required (topic)
-				c.allocateMessageId(f, nil)
+				// have a frame to the client which does not
+				// depend on any acknowledgement (topic)
+				c.allocateMessageId(f, sub)
 
 				// write the frame to the client
 				err := c.writer.Write(f)
-- 
2.43.0


From cc6bf1c1b450739925eb2f2e1d4075c73b80fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 27/31] fix: a silent client that had stopped reading was never
 disconnected

---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 97b8101..9476e7b 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -155,6 +155,12 @@ func (c *Conn) readLoop() {
 				c.log.Errorf("read failed: %v : %s", err, c.rw.RemoteAddr())
 			}
 
+			if e, ok := err.(net.Error); ok && e.Timeout() {
+				// The client has gone. The processing loop might wait for it
+				// to accept a frame, and would not notice.
+				c.rw.Close()
+			}
+
 			// Close the read channel so that the processing loop will
 			// know to terminate, if it has not already done so. This is
 			// the only channel that we close, because it is the only one
-- 
2.43.0


From b8c3865e60a7e11f86dd8254dffd3c1d9e13cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:31 +0000
Subject: [PATCH 28/31] fix: a silent server that had also stopped reading was
 not detected by the client

The goroutine that checks for silence was waiting for the server to accept a
frame.
---
 conn.go | 105 ++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 67 insertions(+), 38 deletions(-)

diff --git a/conn.go b/conn.go
index 67709eb..e877e80 100644
--- a/conn.go
+++ b/conn.go
@@ -52,6 +52,9 @@ type Conn struct {
 	closeMutex                *sync.Mutex
 	closedCh                  chan struct{} // closed when closed becomes true
 	closingCh                 chan struct{} // closed when the transport is about to be closed
+	silentCh                  chan struct{} // closed when the server has been silent for too long
+	delivering                int32         // 1 while a frame is passed to a subscription
+	writing                   int32         // 1 while a frame is written
 	closeOnce                 sync.Once
 	closeErr                  error
 	closeFrame                *frame.Frame // why the connection ended, for the subscriptions
@@ -123,6 +126,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		closeMutex: &sync.Mutex{},
 		closedCh:   make(chan struct{}),
 		closingCh:  make(chan struct{}),
+		silentCh:   make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -419,66 +423,42 @@ func (r *routes) unsubscribe(id string, ch chan *frame.Frame) {
 // process handles io with the server until the connection ends.
 // Returns the ERROR frame that ended it, or one made up for the purpose.
 func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
-	var readTimeoutChannel <-chan time.Time
-	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
 	defer func() {
-		if readTimer != nil {
-			readTimer.Stop()
-		}
 		if writeTimer != nil {
 			writeTimer.Stop()
 		}
 	}()
 
+	if c.readTimeout > 0 {
+		go c.watchServer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
+	}
+
 	for {
-		if c.readTimeout > 0 && readTimer == nil {
-			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
-			readTimeoutChannel = readTimer.C
-		}
 		if c.writeTimeout > 0 && writeTimer == nil {
 			writeTimer = time.NewTimer(c.writeTimeout)
 			writeTimeoutChannel = writeTimer.C
 		}
 
 		select {
-		case <-readTimeoutChannel:
-			// The server is not silent if it is in the middle of a frame,
-			// or if its frames are still waiting for this goroutine.
-			limit := time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier)
-			idle := time.Since(c.lastRead.Load().(time.Time))
-			if len(c.readCh) > 0 {
-				idle = 0
-			}
-			if idle < limit {
-				readTimer.Reset(limit - idle)
-				continue
-			}
-
+		case <-c.silentCh:
 			// read timeout, close the connection
-			return errorFrame(newErrorMessage("read timeout"))
+			return c.endFrame(nil)
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
-			err := writer.Write(nil)
+			err := c.write(writer, nil)
 			if err != nil {
-				return errorFrame(err)
+				return c.endFrame(err)
 			}
 			writeTimer = nil
 			writeTimeoutChannel = nil
 
 		case f, ok := <-c.readCh:
-			// stop the read timer
-			if readTimer != nil {
-				readTimer.Stop()
-				readTimer = nil
-				readTimeoutChannel = nil
-			}
-
 			if !ok {
-				return errorFrame(newErrorMessage("connection closed"))
+				return c.endFrame(newErrorMessage("connection closed"))
 			}
 
 			if f == nil {
@@ -494,7 +474,7 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 						delete(routes.receipts, id)
 					} else if unsub, ok := routes.unsubs[id]; ok {
 						if !c.deliver(unsub.ch, f) {
-							return errorFrame(newErrorMessage("connection closed"))
+							return c.endFrame(newErrorMessage("connection closed"))
 						}
 						delete(routes.unsubs, id)
 						routes.unsubscribe(unsub.id, unsub.ch)
@@ -511,7 +491,7 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
 					if ch, ok := routes.subs[id]; ok {
 						if !c.deliver(ch, f) {
-							return errorFrame(newErrorMessage("connection closed"))
+							return c.endFrame(newErrorMessage("connection closed"))
 						}
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
@@ -549,7 +529,7 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 					if ok {
 						// there is no RECEIPT to wait for
 						if !c.deliver(ch, frame.New(frame.RECEIPT)) {
-							return errorFrame(newErrorMessage("connection closed"))
+							return c.endFrame(newErrorMessage("connection closed"))
 						}
 						routes.unsubscribe(replyTo, ch)
 					}
@@ -580,18 +560,27 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 					writeTimer = nil
 					writeTimeoutChannel = nil
 				}
-				err := writer.Write(req.Frame)
+				err := c.write(writer, req.Frame)
 				if err != nil {
-					return errorFrame(err)
+					return c.endFrame(err)
 				}
 			}
 		}
 	}
 }
 
+// Writes a frame, or a heart-beat if it is nil.
+func (c *Conn) write(writer *frame.Writer, f *frame.Frame) error {
+	atomic.StoreInt32(&c.writing, 1)
+	defer atomic.StoreInt32(&c.writing, 0)
+	return writer.Write(f)
+}
+
 // Passes a frame to a subscription. Returns false if the connection
 // was closed before the subscription could accept it.
 func (c *Conn) deliver(ch chan *frame.Frame, f *frame.Frame) bool {
+	atomic.StoreInt32(&c.delivering, 1)
+	defer atomic.StoreInt32(&c.delivering, 0)
 	select {
 	case ch <- f:
 		return true
@@ -600,6 +589,46 @@ func (c *Conn) deliver(ch chan *frame.Frame, f *frame.Frame) bool {
 	}
 }
 
+// watchServer ends the connection when the server has been silent for the
+// limit. It does not depend on processLoop, which cannot notice while it waits
+// for the server to accept a frame.
+func (c *Conn) watchServer(limit time.Duration) {
+	timer := time.NewTimer(limit)
+	defer timer.Stop()
+	for {
+		select {
+		case <-timer.C:
+		case <-c.closingCh:
+			return
+		}
+
+		// The server is not silent if it is in the middle of a frame,
+		// or if its frames are still waiting for processLoop or a subscription.
+		idle := time.Since(c.lastRead.Load().(time.Time))
+		waiting := len(c.readCh) > 0 && atomic.LoadInt32(&c.writing) == 0
+		if waiting || atomic.LoadInt32(&c.delivering) != 0 {
+			idle = 0
+		}
+		if idle >= limit {
+			close(c.silentCh)
+			_ = c.closeTransport()
+			return
+		}
+		timer.Reset(limit - idle)
+	}
+}
+
+// Makes the frame that tells why the connection ended, which is err
+// unless the server was silent for too long.
+func (c *Conn) endFrame(err error) *frame.Frame {
+	select {
+	case <-c.silentCh:
+		err = newErrorMessage("read timeout")
+	default:
+	}
+	return errorFrame(err)
+}
+
 // Makes an ERROR frame for those waiting for a response.
 func errorFrame(err error) *frame.Frame {
 	return frame.New(frame.ERROR, frame.Message, err.Error())
-- 
2.43.0


From 8d48a12f2f8faec9f602264c0f5bdb3c368bb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:26 +0000
Subject: [PATCH 29/31] fix: a subscription that was not read kept the client
 from sending

The I/O goroutine waited for the subscription to accept a message. When the
consumer sends something for each message, an ACK for example, and there are
enough of them to fill writeCh, they waited for each other forever. Nor were
heart-beats sent in the meantime.
---
 conn.go | 89 +++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 31 deletions(-)

diff --git a/conn.go b/conn.go
index e877e80..b12c648 100644
--- a/conn.go
+++ b/conn.go
@@ -53,8 +53,8 @@ type Conn struct {
 	closedCh                  chan struct{} // closed when closed becomes true
 	closingCh                 chan struct{} // closed when the transport is about to be closed
 	silentCh                  chan struct{} // closed when the server has been silent for too long
-	delivering                int32         // 1 while a frame is passed to a subscription
-	writing                   int32         // 1 while a frame is written
+	delivering                int32         // 1 while a subscription does not accept a frame
+	writing                   atomic.Value  // time.Time when the frame being written was started, zero if there is none
 	closeOnce                 sync.Once
 	closeErr                  error
 	closeFrame                *frame.Frame // why the connection ended, for the subscriptions
@@ -137,6 +137,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c.log = options.Logger
 
 	c.lastRead.Store(time.Now())
+	c.writing.Store(time.Time{})
 	reader := frame.NewReader(readWatcher{c})
 	if options.ReadBufferSize > 0 {
 		reader = frame.NewReaderSize(readWatcher{c}, options.ReadBufferSize)
@@ -408,6 +409,13 @@ type unsubscribing struct {
 	ch chan *frame.Frame
 }
 
+// A frame for a subscription.
+type delivery struct {
+	ch   chan *frame.Frame
+	f    *frame.Frame
+	done func() // called when the subscription accepted the frame, unless nil
+}
+
 func (r *routes) subscribe(id string, ch chan *frame.Frame) {
 	r.subs[id] = ch
 	r.open[ch] = true
@@ -432,6 +440,15 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 		}
 	}()
 
+	// Frames for the subscriptions that did not accept them yet. The server has
+	// to wait for them, but the requests do not: the subscription could depend
+	// on a request, for example to acknowledge the messages before.
+	var pending []delivery
+	deliver := func(d delivery) {
+		pending = append(pending, d)
+		atomic.StoreInt32(&c.delivering, 1)
+	}
+
 	if c.readTimeout > 0 {
 		go c.watchServer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
 	}
@@ -442,7 +459,28 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 			writeTimeoutChannel = writeTimer.C
 		}
 
+		var next delivery
+		var closingCh <-chan struct{}
+		readCh := c.readCh
+		if len(pending) > 0 {
+			next = pending[0]
+			closingCh = c.closingCh
+			readCh = nil
+		}
+
 		select {
+		case next.ch <- next.f:
+			pending = pending[1:]
+			if len(pending) == 0 {
+				atomic.StoreInt32(&c.delivering, 0)
+			}
+			if next.done != nil {
+				next.done()
+			}
+
+		case <-closingCh:
+			return c.endFrame(newErrorMessage("connection closed"))
+
 		case <-c.silentCh:
 			// read timeout, close the connection
 			return c.endFrame(nil)
@@ -456,7 +494,7 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 			writeTimer = nil
 			writeTimeoutChannel = nil
 
-		case f, ok := <-c.readCh:
+		case f, ok := <-readCh:
 			if !ok {
 				return c.endFrame(newErrorMessage("connection closed"))
 			}
@@ -473,11 +511,10 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 						ch <- f
 						delete(routes.receipts, id)
 					} else if unsub, ok := routes.unsubs[id]; ok {
-						if !c.deliver(unsub.ch, f) {
-							return c.endFrame(newErrorMessage("connection closed"))
-						}
 						delete(routes.unsubs, id)
-						routes.unsubscribe(unsub.id, unsub.ch)
+						deliver(delivery{unsub.ch, f, func() {
+							routes.unsubscribe(unsub.id, unsub.ch)
+						}})
 					}
 				} else {
 					return errorFrame(&Error{Message: "missing receipt-id", Frame: f})
@@ -490,9 +527,7 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
 					if ch, ok := routes.subs[id]; ok {
-						if !c.deliver(ch, f) {
-							return c.endFrame(newErrorMessage("connection closed"))
-						}
+						deliver(delivery{ch: ch, f: f})
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
@@ -528,10 +563,9 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 					ch, ok := routes.subs[replyTo]
 					if ok {
 						// there is no RECEIPT to wait for
-						if !c.deliver(ch, frame.New(frame.RECEIPT)) {
-							return c.endFrame(newErrorMessage("connection closed"))
-						}
-						routes.unsubscribe(replyTo, ch)
+						deliver(delivery{ch, frame.New(frame.RECEIPT), func() {
+							routes.unsubscribe(replyTo, ch)
+						}})
 					}
 					sendFrame = false
 				} else {
@@ -571,24 +605,11 @@ func (c *Conn) process(writer *frame.Writer, routes *routes) *frame.Frame {
 
 // Writes a frame, or a heart-beat if it is nil.
 func (c *Conn) write(writer *frame.Writer, f *frame.Frame) error {
-	atomic.StoreInt32(&c.writing, 1)
-	defer atomic.StoreInt32(&c.writing, 0)
+	c.writing.Store(time.Now())
+	defer c.writing.Store(time.Time{})
 	return writer.Write(f)
 }
 
-// Passes a frame to a subscription. Returns false if the connection
-// was closed before the subscription could accept it.
-func (c *Conn) deliver(ch chan *frame.Frame, f *frame.Frame) bool {
-	atomic.StoreInt32(&c.delivering, 1)
-	defer atomic.StoreInt32(&c.delivering, 0)
-	select {
-	case ch <- f:
-		return true
-	case <-c.closingCh:
-		return false
-	}
-}
-
 // watchServer ends the connection when the server has been silent for the
 // limit. It does not depend on processLoop, which cannot notice while it waits
 // for the server to accept a frame.
@@ -605,8 +626,14 @@ func (c *Conn) watchServer(limit time.Duration) {
 		// The server is not silent if it is in the middle of a frame,
 		// or if its frames are still waiting for processLoop or a subscription.
 		idle := time.Since(c.lastRead.Load().(time.Time))
-		waiting := len(c.readCh) > 0 && atomic.LoadInt32(&c.writing) == 0
-		if waiting || atomic.LoadInt32(&c.delivering) != 0 {
+		writing := c.writing.Load().(time.Time)
+		delivering := atomic.LoadInt32(&c.delivering) != 0
+		if delivering && !writing.IsZero() {
+			// until then it was the subscription that had to be waited for
+			if waiting := time.Since(writing); waiting < idle {
+				idle = waiting
+			}
+		} else if delivering || len(c.readCh) > 0 && writing.IsZero() {
 			idle = 0
 		}
 		if idle >= limit {
-- 
2.43.0


From e7a41f157c11a4c0e62312690360b27f253276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:24 +0000
Subject: [PATCH 30/31] fix: the server kept an entry for every destination
 that was ever used

---
 server/client/subscription_list.go | 5 +++++
 server/processor.go                | 6 ++++++
 server/queue/manager.go            | 9 +++++++++
 server/queue/memory_queue.go       | 6 +++++-
 server/topic/manager.go            | 8 ++++++++
 5 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 791fdce..88d1360 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -15,6 +15,11 @@ func NewSubscriptionList() *SubscriptionList {
 	return &SubscriptionList{list.New()}
 }
 
+// Len returns the number of subscriptions in the list.
+func (sl *SubscriptionList) Len() int {
+	return sl.subs.Len()
+}
+
 // Add a subscription to the back of the list. Will panic if
 // the subscription destination does not match the subscription
 // list destination. Will also panic if the subscription has already
diff --git a/server/processor.go b/server/processor.go
index 5c74ca3..7ee17ee 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -48,6 +48,7 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(r.Sub.Destination())
 				// todo error handling
 				queue.Subscribe(r.Sub)
+				proc.qm.Release(r.Sub.Destination())
 			} else {
 				topic := proc.tm.Find(r.Sub.Destination())
 				topic.Subscribe(r.Sub)
@@ -58,9 +59,11 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(r.Sub.Destination())
 				// todo error handling
 				queue.Unsubscribe(r.Sub)
+				proc.qm.Release(r.Sub.Destination())
 			} else {
 				topic := proc.tm.Find(r.Sub.Destination())
 				topic.Unsubscribe(r.Sub)
+				proc.tm.Release(r.Sub.Destination())
 			}
 
 		case client.EnqueueOp:
@@ -73,9 +76,11 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			if isQueueDestination(destination) {
 				queue := proc.qm.Find(destination)
 				queue.Enqueue(r.Frame)
+				proc.qm.Release(destination)
 			} else {
 				topic := proc.tm.Find(destination)
 				topic.Enqueue(r.Frame)
+				proc.tm.Release(destination)
 			}
 
 		case client.RequeueOp:
@@ -89,6 +94,7 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			if isQueueDestination(destination) {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
+				proc.qm.Release(destination)
 			}
 
 		case client.DisconnectedOp:
diff --git a/server/queue/manager.go b/server/queue/manager.go
index 3e499df..8c4df29 100644
--- a/server/queue/manager.go
+++ b/server/queue/manager.go
@@ -21,3 +21,12 @@ func (qm *Manager) Find(destination string) *Queue {
 	}
 	return q
 }
+
+// Release forgets the queue for the given destination, unless it has any
+// subscriptions that are waiting for a message. It would be no different if
+// it was created again, because the messages are kept in the queue storage.
+func (qm *Manager) Release(destination string) {
+	if q, ok := qm.queues[destination]; ok && q.subs.Len() == 0 {
+		delete(qm.queues, destination)
+	}
+}
diff --git a/server/queue/memory_queue.go b/server/queue/memory_queue.go
index ebd204e..bc9904c 100644
--- a/server/queue/memory_queue.go
+++ b/server/queue/memory_queue.go
@@ -54,7 +54,11 @@ func (m *MemoryQueueStorage) Dequeue(queue string) (*frame.Frame, error) {
 		return nil, nil
 	}
 
-	return l.Remove(element).(*frame.Frame), nil
+	f := l.Remove(element).(*frame.Frame)
+	if l.Len() == 0 {
+		delete(m.lists, queue)
+	}
+	return f, nil
 }
 
 // Called at server startup. Allows the queue storage
diff --git a/server/topic/manager.go b/server/topic/manager.go
index 0b9611d..a56baf4 100644
--- a/server/topic/manager.go
+++ b/server/topic/manager.go
@@ -22,3 +22,11 @@ func (tm *Manager) Find(destination string) *Topic {
 	}
 	return t
 }
+
+// Release forgets the topic for the given destination, unless it has any
+// subscriptions. It would be no different if it was created again.
+func (tm *Manager) Release(destination string) {
+	if t, ok := tm.topics[destination]; ok && t.subs.Len() == 0 {
+		delete(tm.topics, destination)
+	}
+}
-- 
2.43.0


From 5b6f3245c5b343737a5f0abc1b975f743df5c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:29 +0000
Subject: [PATCH 31/31] fix: a server that was silent was noticed late when a
 reply-to subscription ended before a write blocked

---
 conn.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index b12c648..77444a7 100644
--- a/conn.go
+++ b/conn.go
@@ -628,13 +628,16 @@ func (c *Conn) watchServer(limit time.Duration) {
 		idle := time.Since(c.lastRead.Load().(time.Time))
 		writing := c.writing.Load().(time.Time)
 		delivering := atomic.LoadInt32(&c.delivering) != 0
-		if delivering && !writing.IsZero() {
+		waiting := len(c.readCh) > 0
+		if writing.IsZero() {
+			if delivering || waiting {
+				idle = 0
+			}
+		} else if delivering && waiting {
 			// until then it was the subscription that had to be waited for
-			if waiting := time.Since(writing); waiting < idle {
-				idle = waiting
+			if since := time.Since(writing); since < idle {
+				idle = since
 			}
-		} else if delivering || len(c.readCh) > 0 && writing.IsZero() {
-			idle = 0
 		}
 		if idle >= limit {
 			close(c.silentCh)
-- 
2.43.0


From 1049849ed7eb2ddedf39fe3f8c9aa6ec7685fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 01/28] fix: encode and decode all eight groups of an IPv6
 address

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From fd677a6ecc2eb04dd7c17efd1f79845bb710ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:23 +0000
Subject: [PATCH 02/28] fix: bound the string lengths a remote claims in hand,
 shake and error messages

---
 p2p/handshake.go | 12 ++++++------
 p2p/helpers.go   | 18 ++++++++++++++++++
 p2p/messages.go  |  6 +++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..79cd9f7 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,12 +123,12 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, userAgentLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	agent, err := readString(r, userAgentLen)
+	if err != nil {
 		return err
 	}
 
-	h.UserAgent = string(buff)
+	h.UserAgent = agent
 
 	genesisBuf := make([]byte, 32)
 	if _, err := io.ReadFull(r, genesisBuf); err != nil {
@@ -210,12 +210,12 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, userAgentLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	agent, err := readString(r, userAgentLen)
+	if err != nil {
 		return err
 	}
 
-	h.UserAgent = string(buff)
+	h.UserAgent = agent
 
 	genesisBuf := make([]byte, 32)
 	if _, err := io.ReadFull(r, genesisBuf); err != nil {
diff --git a/p2p/helpers.go b/p2p/helpers.go
index de1e7a6..3b93556 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -5,8 +5,11 @@
 package p2p
 
 import (
+	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"github.com/dblokhin/gringo/consensus"
 	"github.com/sirupsen/logrus"
 	"io"
 	"net"
@@ -97,3 +100,18 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 		Port: int(ipPort),
 	}, nil
 }
+
+// readString reads a string of the length the remote claims. Memory is only
+// taken for bytes that really arrive.
+func readString(r io.Reader, length uint64) (string, error) {
+	if length > consensus.MaxMsgLen {
+		return "", errors.New("too big string length")
+	}
+
+	buff := new(bytes.Buffer)
+	if _, err := io.CopyN(buff, r, int64(length)); err != nil {
+		return "", err
+	}
+
+	return buff.String(), nil
+}
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..6b6aab3 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,12 +207,12 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, messageLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	message, err := readString(r, messageLen)
+	if err != nil {
 		return err
 	}
 
-	p.Message = string(buff)
+	p.Message = message
 	return nil
 }
 
-- 
2.43.0


From b8dfa8021a0c0244039ec6f4ef1b323deef13570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:24 +0000
Subject: [PATCH 03/28] fix: bound the number of kernel ids a compact block
 claims

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..a055d8e 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -420,6 +420,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the length.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From e7f965696aa4d6831627001e2ebcf8859b954bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:26 +0000
Subject: [PATCH 04/28] fix: encode the features of transaction inputs

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From 3bae0b74ecf90fe9e0a4667c56d67b62a9d99471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 05/28] fix: send the genesis hash in the shake reply

---
 p2p/handshake.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 79cd9f7..44e2f1b 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -284,6 +284,7 @@ func handByShake(conn net.Conn) (*hand, error) {
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 2a51d3e3f4e9079a11d626bb53bc47f46b7eeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:16 +0000
Subject: [PATCH 06/28] fix: refuse peers with another genesis in the handshake

---
 p2p/handshake.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 44e2f1b..4537644 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -260,6 +260,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, msg.Genesis) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	return sh, nil
 }
 
@@ -273,6 +278,11 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return nil, err
 	}
 
+	// Only accept peers on the same chain
+	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+		return &h, errors.New("peer is on another chain")
+	}
+
 	// Check nonce to detect connection to ourselves
 	if serverNonces.Consist(h.Nonce) {
 		return &h, errors.New("detect connection to ourselves by nonce")
-- 
2.43.0


From 2468429c298c7662ede5dd71232a23b86dfe7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 07/28] fix: close the connection when the handshake fails

---
 p2p/peer.go | 1 +
 p2p/pool.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..3c9ca5d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -73,6 +73,7 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	logrus.Infof("connected to peer (%s)", addr)
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..a1c12fc 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -231,6 +231,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	// Check the Protocol version
 	if peerConn.Info.Version != consensus.ProtocolVersion {
+		peerConn.Close()
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-- 
2.43.0


From 4be5d03a959a16c067825eb42ed659408eae0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:19 +0000
Subject: [PATCH 08/28] fix: bound the time a handshake may take

---
 p2p/handshake.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 4537644..20e9ac3 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -13,6 +13,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"io"
 	"net"
+	"time"
 )
 
 // First part of a handshake, sender advertises its version and
@@ -227,8 +228,16 @@ func (h *shake) Read(r io.Reader) error {
 	return nil
 }
 
+// handshakeTimeout bounds the whole handshake, so that a remote that stalls or
+// drips bytes cannot hold it up.
+const handshakeTimeout = 30 * time.Second
+
 // shakeByHand sends hand to receive shake
 func shakeByHand(conn net.Conn) (*shake, error) {
+	if err := conn.SetDeadline(time.Now().Add(handshakeTimeout)); err != nil {
+		return nil, err
+	}
+
 	// create hand
 	// TODO: use the server listen addr
 	sender, err := net.ResolveTCPAddr("tcp", "0.0.0.0:0")
@@ -265,11 +274,18 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, errors.New("peer is on another chain")
 	}
 
+	if err := conn.SetDeadline(time.Time{}); err != nil {
+		return nil, err
+	}
+
 	return sh, nil
 }
 
 // handByShake sends shake and return received hand
 func handByShake(conn net.Conn) (*hand, error) {
+	if err := conn.SetDeadline(time.Now().Add(handshakeTimeout)); err != nil {
+		return nil, err
+	}
 
 	var h hand
 
@@ -300,5 +316,9 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return nil, err
 	}
 
+	if err := conn.SetDeadline(time.Time{}); err != nil {
+		return nil, err
+	}
+
 	return &h, nil
 }
-- 
2.43.0


From 14dbd25bae5bfff312ae8e1dd56dc1cdcc057fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:59 +0000
Subject: [PATCH 09/28] fix: closing a peer from its own message handler
 deadlocks

---
 p2p/peer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3c9ca5d..9efa204 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -349,9 +349,9 @@ func (p *Peer) Disconnect(reason error) {
 
 	logrus.Info("Disconnect peer: ", reason)
 
-	close(p.quit)
+	// Don't wait for the handlers here: they may be the callers
 	p.conn.Close()
-	p.wg.Wait()
+	close(p.quit)
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 8713964df97c42ac8a72efd1bb954aa25fed1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:01 +0000
Subject: [PATCH 10/28] fix: free the connection slot when there was nothing to
 connect

---
 p2p/pool.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index a1c12fc..4baa65b 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -21,6 +21,9 @@ var (
 	maxPeersTableSize    = 10000
 )
 
+// errNoPeer says that there is no address to connect to
+var errNoPeer = errors.New("no peer to connect")
+
 // newPeersPool returns peers pool instance
 func newPeersPool(sync *Syncer) *peersPool {
 	pp := &peersPool{
@@ -198,9 +201,9 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 // connectPeer connects peer from peerTable
 func (pp *peersPool) connectPeer(addr string) error {
-	// for empty string nonerror exit
+	// nothing to connect
 	if len(addr) == 0 {
-		return nil
+		return errNoPeer
 	}
 
 	if pp.connected > int32(maxOnlineConnections) {
@@ -219,8 +222,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	defer peerInfo.Unlock()
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
-		logrus.Debug("dont connect to banned host (or already connected)")
-		return nil
+		return errors.New("dont connect to banned host (or already connected)")
 	}
 
 	peerConn, err := NewPeer(pp.sync, addr)
@@ -290,7 +292,10 @@ out:
 
 		case pp.pool <- struct{}{}:
 			if err := pp.connectPeer(pp.notConnected()); err != nil {
-				logrus.Error(err)
+				if err != errNoPeer {
+					logrus.Error(err)
+				}
+				// no connection, free the slot
 				<-pp.pool
 			}
 
-- 
2.43.0


From 7d7d9ca6d1f73a038f81b7b6a16d375f373ffdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:02 +0000
Subject: [PATCH 11/28] fix: don't store peer addresses without an IP

---
 p2p/pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 4baa65b..f77aa33 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -102,6 +102,11 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// an address without IP can't be dialed or told to others
+	if netAddr.IP == nil {
+		return
+	}
+
 	// FIXME: discard another IPs
 	if netAddr.IP.IsMulticast() {
 		return
-- 
2.43.0


From e8c0905ad281d544f2a311da0604c434849c3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:04 +0000
Subject: [PATCH 12/28] fix: keep the peers table within its maximum size

---
 p2p/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index f77aa33..8765952 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -120,7 +120,7 @@ func (pp *peersPool) Add(addr string) {
 	defer pp.ptmu.Unlock()
 
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From d747154e89a350fe58be2a4a1b18dd15a700b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:05 +0000
Subject: [PATCH 13/28] fix: store each peer address once, however it is
 written

---
 p2p/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 8765952..e4802cf 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -116,6 +116,9 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// one entry per address, however it was written
+	addr = netAddr.String()
+
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
-- 
2.43.0


From 013a08d62b1e835cab8474fef9739c03ec82356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 14/28] fix: make bans complete: unknown, unconnected and
 gossiped addresses, no nil map or peer

---
 p2p/pool.go | 38 +++++++++++++++++++++++++++-----------
 p2p/sync.go |  6 +++---
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index e4802cf..59273ee 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -33,6 +33,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -62,18 +63,11 @@ type peersPool struct {
 
 // Ban closes connection & ban peer
 func (pp *peersPool) Ban(addr string) {
-	pp.ptmu.Lock()
-	peerInfo, ok := pp.PeersTable[addr]
-	pp.ptmu.Unlock()
-
-	if !ok {
-		return
+	// the tables hold resolved addrs
+	if netAddr, err := net.ResolveTCPAddr("tcp", addr); err == nil {
+		addr = netAddr.String()
 	}
 
-	// Mark banned & Close connection
-	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
-
 	// Add to ban list
 	pp.bnmu.Lock()
 	pp.BannedPeers[addr] = struct{}{}
@@ -81,8 +75,23 @@ func (pp *peersPool) Ban(addr string) {
 
 	// Clear the peers table
 	pp.ptmu.Lock()
+	peerInfo, ok := pp.PeersTable[addr]
 	delete(pp.PeersTable, addr)
 	pp.ptmu.Unlock()
+
+	if !ok {
+		return
+	}
+
+	// Mark banned & Close connection
+	peerInfo.Lock()
+	peerInfo.Status = psBanned
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
+
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
@@ -122,6 +131,11 @@ func (pp *peersPool) Add(addr string) {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
+	// Don't add banned
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Don't add if big peer table
 	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
@@ -274,7 +288,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 		// update peers & connected peers tables
 		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
 		peerInfo.Unlock()
 
 		// clean connected peers
diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..3e74ef1 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -213,7 +213,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From 3412c2148e55400301df5da9371b32f8a8cb3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 15/28] fix: don't hold the peer lock while connecting, so that
 a ban takes effect

---
 p2p/pool.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 59273ee..b56b30a 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -241,15 +241,20 @@ func (pp *peersPool) connectPeer(addr string) error {
 	}
 
 	peerInfo.Lock()
-	defer peerInfo.Unlock()
+	status := peerInfo.Status
+	peerInfo.Unlock()
 
-	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
+	if status == psBanned || status == psConnected {
 		return errors.New("dont connect to banned host (or already connected)")
 	}
 
 	peerConn, err := NewPeer(pp.sync, addr)
 	if err != nil {
-		peerInfo.Status = psFailedConn
+		peerInfo.Lock()
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psFailedConn
+		}
+		peerInfo.Unlock()
 		return err
 	}
 
@@ -259,9 +264,15 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
-
 	// update peers table
+	peerInfo.Lock()
+	if peerInfo.Status == psBanned {
+		peerInfo.Unlock()
+		peerConn.Close()
+		return errors.New("peer was banned while connecting")
+	}
+
+	pp.connected++
 	peerInfo.Peer = peerConn
 	peerInfo.Status = psConnected
 	peerInfo.LastConn = time.Now()
@@ -270,6 +281,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	peerInfo.Height = peerConn.Info.Height
 	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
 	peerInfo.Capabilities = peerConn.Info.Capabilities
+	peerInfo.Unlock()
 
 	// update connected peers
 	pp.cpmu.Lock()
-- 
2.43.0


From 1c809be1d87d3d147f17daf9ca9805d70d0bc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 16/28] fix: a peer that does not read must not block the
 connection loop

---
 p2p/pool.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index b56b30a..29fce22 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -289,9 +289,12 @@ func (pp *peersPool) connectPeer(addr string) error {
 	pp.cpmu.Unlock()
 
 	// And send ping / peers request
+	// (a peer that doesn't read must not block the caller)
 	peerConn.Start()
-	peerConn.SendPing()
-	peerConn.SendPeerRequest(consensus.CapFullNode)
+	go func() {
+		peerConn.SendPing()
+		peerConn.SendPeerRequest(consensus.CapFullNode)
+	}()
 
 	// on disconnect update info
 	go func() {
-- 
2.43.0


From 7d012e832d7347e7c39351b1dfda944b55fe9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 17/28] fix: forget a closed connection before its address may
 be connected again

---
 p2p/pool.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 29fce22..63d9e49 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -301,19 +301,19 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-		// update peers & connected peers tables
+		// clean connected peers (before the addr may be connected again)
+		pp.connected--
+		pp.cpmu.Lock()
+		delete(pp.ConnectedPeers, addr)
+		pp.cpmu.Unlock()
+
+		// update peers table
 		peerInfo.Lock()
 		if peerInfo.Status != psBanned {
 			peerInfo.Status = psDisconnected
 		}
 		peerInfo.Unlock()
 
-		// clean connected peers
-		pp.connected--
-		pp.cpmu.Lock()
-		delete(pp.ConnectedPeers, addr)
-		pp.cpmu.Unlock()
-
 		<-pp.pool
 	}()
 
-- 
2.43.0


From 847303a7e41d442e71049a74b12fd4e37a50e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:12 +0000
Subject: [PATCH 18/28] fix: stopping with peers that were never connected
 crashes

---
 p2p/pool.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 63d9e49..8e49b44 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -346,14 +346,15 @@ out:
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
-	for _, pi := range pp.PeersTable {
-		go func(peerInfo *peerInfo) {
-			peerInfo.Lock()
-			peerInfo.Peer.Close()
-			peerInfo.Status = psDisconnected
-			peerInfo.Unlock()
-		}(pi)
+	for _, peerInfo := range pp.PeersTable {
+		peerInfo.Lock()
+		peer := peerInfo.Peer
+		peerInfo.Unlock()
 
+		// there are peers that never were connected
+		if peer != nil {
+			peer.Close()
+		}
 	}
 }
 
-- 
2.43.0


From 2d5bca05ccded0ab8093a605dadccb6085a085e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 19/28] fix: data races on peer state, connection counter,
 chain height and nonces

---
 p2p/pool.go   | 48 +++++++++++++++++++++++++++++++-----------------
 p2p/server.go |  7 ++++---
 p2p/sync.go   |  6 +++++-
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 8e49b44..f3b825a 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -167,12 +168,16 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	defer pp.ptmu.Unlock()
 
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn {
+		peerInfo.Lock()
+		status, peerCaps := peerInfo.Status, peerInfo.Capabilities
+		peerInfo.Unlock()
+
+		if status == psBanned || status == psFailedConn {
 			continue
 		}
 
 		// filter by capabilities
-		if (peerInfo.Capabilities & capabilities) != capabilities {
+		if (peerCaps & capabilities) != capabilities {
 			continue
 		}
 
@@ -209,15 +214,16 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 	pp.cpmu.Lock()
 	defer pp.cpmu.Unlock()
 
-	for _, pi := range pp.ConnectedPeers {
-		go func(peerInfo *peerInfo) {
-			// propagate if peer height or totalDiff less than newest block
-			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
-					peer.SendBlock(block)
-				}
-			}
-		}(pi)
+	for _, peerInfo := range pp.ConnectedPeers {
+		peerInfo.Lock()
+		peer := peerInfo.Peer
+		// propagate if peer height or totalDiff less than newest block
+		behind := peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty
+		peerInfo.Unlock()
+
+		if behind && peer != nil {
+			go peer.SendBlock(block)
+		}
 	}
 }
 
@@ -228,7 +234,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return errNoPeer
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return errors.New("too big online peers connections")
 	}
 
@@ -272,7 +278,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return errors.New("peer was banned while connecting")
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 	peerInfo.Peer = peerConn
 	peerInfo.Status = psConnected
 	peerInfo.LastConn = time.Now()
@@ -302,7 +308,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		logrus.Infof("closed peer connection (%s)", addr)
 
 		// clean connected peers (before the addr may be connected again)
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
@@ -370,14 +376,22 @@ func (pp *peersPool) notConnected() string {
 
 	// first, find good peers
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psNew || peerInfo.Status == psDisconnected {
+		peerInfo.Lock()
+		status := peerInfo.Status
+		peerInfo.Unlock()
+
+		if status == psNew || status == psDisconnected {
 			return addr
 		}
 	}
 
 	// second, try to open conn with failed nodes
-	for addr, peer := range pp.PeersTable {
-		if peer.Status == psFailedConn {
+	for addr, peerInfo := range pp.PeersTable {
+		peerInfo.Lock()
+		status := peerInfo.Status
+		peerInfo.Unlock()
+
+		if status == psFailedConn {
 			return addr
 		}
 	}
diff --git a/p2p/server.go b/p2p/server.go
index f83a40d..6da11e5 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -6,6 +6,7 @@ package p2p
 
 import (
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
@@ -14,7 +15,7 @@ const (
 )
 
 type nonceList struct {
-	idx  int
+	idx  uint32
 	list []uint64
 }
 
@@ -29,8 +30,8 @@ func (n *nonceList) Init() {
 
 // NextNonce returns next nonce from list
 func (n *nonceList) NextNonce() uint64 {
-	n.idx = (n.idx + 1) % noncesCap
-	return n.list[n.idx]
+	idx := atomic.AddUint32(&n.idx, 1) % noncesCap
+	return n.list[idx]
 }
 
 func (n *nonceList) Consist(nonce uint64) bool {
diff --git a/p2p/sync.go b/p2p/sync.go
index 3e74ef1..9c7f98c 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -206,7 +206,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		peerInfo.Unlock()
 
 		// propagate if it is top block
-		if msg.Header.Height == s.Chain.Height() {
+		s.Chain.RLock()
+		height := s.Chain.Height()
+		s.Chain.RUnlock()
+
+		if msg.Header.Height == height {
 			s.Pool.PropagateBlock(msg)
 		}
 
-- 
2.43.0


From 4532ceaed684237f77d265e94faa757cadabac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 20/28] fix: a message of a banned or accepted peer must not
 end the process

---
 p2p/sync.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 9c7f98c..1fb7b8a 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -5,6 +5,7 @@
 package p2p
 
 import (
+	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"github.com/sirupsen/logrus"
 )
@@ -102,10 +103,17 @@ func (s *Syncer) Stop() {
 
 func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
+	if s == nil {
+		// accepted without a syncer
+		peer.Disconnect(errors.New("no syncer to process the message"))
+		return
+	}
+
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer was banned meanwhile
+		peer.Disconnect(errors.New("unknown peer"))
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From b02a7db8bc3c5bc35a1413b86214790e3c6d1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 21/28] fix: a transaction crashes a node that runs without a
 mempool

---
 p2p/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 1fb7b8a..b20c3a5 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -223,6 +223,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		if s.Mempool == nil {
+			// running without a mempool
+			break
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From cd7fe5ea557eec9784ff9a8074eba062a830c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 22/28] fix: don't relay a rejected block or believe its height

---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index b20c3a5..3823425 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -201,6 +201,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			break
 		}
 
 		// update peer info
-- 
2.43.0


From ab15bcf05a38299f8c5b8e43883065339ec0fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:59 +0000
Subject: [PATCH 23/28] fix: peers that keep dropping connections must not
 starve the others

---
 p2p/pool.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index f3b825a..903ff1c 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -52,6 +52,9 @@ type peersPool struct {
 	pool chan struct{}
 	quit chan int
 
+	// attempts to find a peer to connect
+	attempts int
+
 	// all peers
 	PeersTable map[string]*peerInfo
 
@@ -374,29 +377,29 @@ func (pp *peersPool) notConnected() string {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
-	// first, find good peers
+	var good, failed string
 	for addr, peerInfo := range pp.PeersTable {
 		peerInfo.Lock()
 		status := peerInfo.Status
 		peerInfo.Unlock()
 
-		if status == psNew || status == psDisconnected {
-			return addr
+		switch status {
+		case psNew, psDisconnected:
+			good = addr
+		case psFailedConn:
+			failed = addr
 		}
 	}
 
-	// second, try to open conn with failed nodes
-	for addr, peerInfo := range pp.PeersTable {
-		peerInfo.Lock()
-		status := peerInfo.Status
-		peerInfo.Unlock()
-
-		if status == psFailedConn {
-			return addr
-		}
+	// first, good peers, second, try to open conn with failed nodes. Every other
+	// attempt the failed nodes come first: peers that keep dropping the
+	// connection must not starve them.
+	pp.attempts++
+	if good == "" || (failed != "" && pp.attempts%2 == 0) {
+		return failed
 	}
 
-	return ""
+	return good
 }
 
 type peerInfo struct {
-- 
2.43.0


From 4a175844dfbce5f4397641a5d2a2d0c7445a4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 24/28] fix: serialising a block or transaction must not
 reorder it in place

---
 consensus/block.go       | 32 ++++++++++++++++++++------------
 consensus/transaction.go | 16 ++++++++++------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index a055d8e..82b3790 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -99,26 +99,30 @@ func (b *Block) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(b.Inputs)
-	sort.Sort(b.Outputs)
-	sort.Sort(b.Kernels)
+	// (sort copies: the block may be in use elsewhere)
+	inputs := append(InputList(nil), b.Inputs...)
+	outputs := append(OutputList(nil), b.Outputs...)
+	kernels := append(TxKernelList(nil), b.Kernels...)
+	sort.Sort(inputs)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
 
 	// Write inputs
-	for _, input := range b.Inputs {
+	for _, input := range inputs {
 		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write outputs
-	for _, output := range b.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, txKernel := range b.Kernels {
+	for _, txKernel := range kernels {
 		if _, err := buff.Write(txKernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
@@ -362,26 +366,30 @@ func (b *CompactBlock) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(b.Outputs)
-	sort.Sort(b.Kernels)
-	sort.Sort(b.KernelIDs)
+	// (sort copies: the block may be in use elsewhere)
+	outputs := append(OutputList(nil), b.Outputs...)
+	kernels := append(TxKernelList(nil), b.Kernels...)
+	kernelIDs := append(ShortIDList(nil), b.KernelIDs...)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
+	sort.Sort(kernelIDs)
 
 	// Write outputs
-	for _, output := range b.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, txKernel := range b.Kernels {
+	for _, txKernel := range kernels {
 		if _, err := buff.Write(txKernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels ids
-	for _, id := range b.KernelIDs {
+	for _, id := range kernelIDs {
 		if _, err := buff.Write(id); err != nil {
 			logrus.Fatal(err)
 		}
diff --git a/consensus/transaction.go b/consensus/transaction.go
index f2a14ee..3385f8c 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -49,26 +49,30 @@ func (t *Transaction) Bytes() []byte {
 
 	// Consensus rule that everything is sorted in lexicographical order on the wire
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(t.Inputs)
-	sort.Sort(t.Outputs)
-	sort.Sort(t.Kernels)
+	// (sort copies: the transaction may be in use elsewhere)
+	inputs := append(InputList(nil), t.Inputs...)
+	outputs := append(OutputList(nil), t.Outputs...)
+	kernels := append(TxKernelList(nil), t.Kernels...)
+	sort.Sort(inputs)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
 
 	// Write inputs
-	for _, input := range t.Inputs {
+	for _, input := range inputs {
 		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write outputs
-	for _, output := range t.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, kernel := range t.Kernels {
+	for _, kernel := range kernels {
 		if _, err := buff.Write(kernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
-- 
2.43.0


From 0332a28170037a0f7f398e0c11e976db0e451fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:30 +0000
Subject: [PATCH 25/28] fix: validate every block of the chain and accept a
 chain of the genesis only

---
 chain/chain.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..020fee7 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -367,20 +367,31 @@ func (c *Chain) Validate() error {
 	defer c.Unlock()
 
 	block := c.head
+	genesisHash := c.genesis.Hash()
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
-		err := block.Validate()
-		if err == nil {
+	for bytes.Compare(block.Hash(), genesisHash) != 0 {
+		if err := block.Validate(); err != nil {
 			return err
 		}
 
+		// the parent of the first block is genesis
+		if bytes.Compare(block.Header.Previous, genesisHash) == 0 {
+			break
+		}
+
+		height := block.Header.Height
 		if block = c.GetBlock(block.Header.Previous); block == nil {
 			return errors.New("invalid previous hash. blockchain integrity is broken")
 		}
 
-		// TODO: check other rules, may be checking block.Height?
+		// heights must go down, a damaged storage may hold a cycle
+		if block.Header.Height >= height {
+			return errors.New("invalid block height. blockchain integrity is broken")
+		}
+
+		// TODO: check other rules
 	}
 
 	return nil
-- 
2.43.0


From e621d0445fa31d79f8835f355a39d396e42ecbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:03 +0000
Subject: [PATCH 26/28] fix: refuse header timestamps so far ahead that the
 comparison overflows

---
 consensus/block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index 82b3790..0fe78e7 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -1015,7 +1015,8 @@ func (b *BlockHeader) Validate() error {
 	}
 
 	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
-	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
+	// (compare seconds: the difference of far timestamps doesn't fit a Duration)
+	if b.Timestamp.Unix() > time.Now().UTC().Add(time.Second*12*BlockTimeSec).Unix() {
 		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
 	}
 
-- 
2.43.0


From 301a6338ce779226f3a4b9af683f8507dc49a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:35 +0000
Subject: [PATCH 27/28] fix: make the genesis blocks serialisable, so that
 serving one does not end the process

---
 chain/chain.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 020fee7..9c1a677 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -19,6 +19,7 @@ var Testnet1 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
@@ -26,6 +27,8 @@ var Testnet1 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -44,10 +47,11 @@ var Testnet1 = consensus.Block{
 // Testnet2 genesis block
 var Testnet2 = consensus.Block{
 	Header: consensus.BlockHeader{
-		Version:   1,
-		Height:    0,
-		Previous:  bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
-		Timestamp: time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
+		Version:      1,
+		Height:       0,
+		Previous:     bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot: bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
+		Timestamp:    time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
@@ -55,6 +59,8 @@ var Testnet2 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -79,6 +85,7 @@ var Testnet3 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
@@ -115,6 +122,7 @@ var Testnet4 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
@@ -146,6 +154,7 @@ var Mainnet = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
@@ -153,6 +162,8 @@ var Mainnet = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
-- 
2.43.0


From c4a59f04c5600536641c1e5aaabf6e8821406229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 28/28] fix: reject proofs of work whose edges branch

findCycleLength walked the edges without checking that exactly two of them
meet at each vertex, so a shorter cycle with a tail of edges hanging at it
was counted as a cycle of the full length.
---
 cuckoo/cuckoo.go | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..d45fbda 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -33,29 +33,49 @@ loop:
 
 		if vertexInUPartition {
 			// Find an unused edge that connects to the current vertex.
+			next := -1
 			for j := range edges {
-				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
-					edges[i].usedU = true
-					edges[j].usedU = true
+				if j != i && edges[i].U == edges[j].U {
+					if next != -1 {
+						// More than two edges meet here: the edges have
+						// branches, they are not a cycle.
+						return 0
+					}
+					next = j
+				}
+			}
 
-					i = j
-					cycle++
+			if next != -1 && !edges[next].usedU {
+				edges[i].usedU = true
+				edges[next].usedU = true
 
-					continue loop
-				}
+				i = next
+				cycle++
+
+				continue loop
 			}
 		} else {
 			// Find an unused edge that connects to the current vertex.
+			next := -1
 			for j := range edges {
-				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
-					edges[i].usedV = true
-					edges[j].usedV = true
+				if j != i && edges[i].V == edges[j].V {
+					if next != -1 {
+						// More than two edges meet here: the edges have
+						// branches, they are not a cycle.
+						return 0
+					}
+					next = j
+				}
+			}
 
-					i = j
-					cycle++
+			if next != -1 && !edges[next].usedV {
+				edges[i].usedV = true
+				edges[next].usedV = true
 
-					continue loop
-				}
+				i = next
+				cycle++
+
+				continue loop
 			}
 		}
 
-- 
2.43.0


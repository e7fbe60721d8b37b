From 8a9351249c407cf35e95656edf0f5d20d53729f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 01/28] fix: do not panic on forks report without leashes

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..e786bc8 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 {
+		return r, nil // There are no leashes or none of them belongs to the given peers.
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From 2b634e4a219cb1a80377bc514193dfefacf64159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 02/28] fix: common ancestor search must not run out of parents
 near genesis

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..57e43f4 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) || i >= len(other.Parents) {
+			continue // Links closer to the genesis block have fewer parents.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From 19261aeeb08d6f06fd352a9f6b7f60d78de3d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 03/28] fix: do not panic on block timestamps chosen by remote
 peers

---
 chains/linkage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index e786bc8..6dfea44 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -3,7 +3,6 @@ package chains
 import (
 	"errors"
 	"fmt"
-	"math"
 	"math/big"
 	"net/netip"
 	"slices"
@@ -18,6 +17,9 @@ import (
 
 const (
 	longForkThreshold = 5
+
+	// Start of the year 9999 in milliseconds, later timestamps could not be represented in JSON.
+	maxTimestamp = 253370764800000
 )
 
 var (
@@ -484,10 +486,10 @@ func (l *Linkage) block(id proto.BlockID) (Block, error) {
 }
 
 func safeTimestamp(ts uint64) int64 {
-	if ts < math.MaxInt64 {
+	if ts < maxTimestamp {
 		return int64(ts)
 	}
-	panic("timestamp is too large")
+	return maxTimestamp
 }
 
 func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
-- 
2.43.0


From 6847af2b95d0d7dea98a586ebacbd5c28ee5a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 04/28] fix: do not panic on base targets chosen by remote
 peers

---
 chains/utils.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/chains/utils.go b/chains/utils.go
index 6d0104e..44164b7 100644
--- a/chains/utils.go
+++ b/chains/utils.go
@@ -1,7 +1,6 @@
 package chains
 
 import (
-	"math"
 	"math/big"
 )
 
@@ -12,10 +11,7 @@ func calculateScore(baseTarget uint64) *big.Int {
 	if baseTarget == 0 {
 		return res
 	}
-	if baseTarget > math.MaxInt64 {
-		panic("base target is too big")
-	}
-	bt := big.NewInt(int64(baseTarget))
+	bt := new(big.Int).SetUint64(baseTarget)
 	maxBlockScore, ok := big.NewInt(0).SetString("18446744073709551616", decimalBase)
 	if !ok {
 		return res
-- 
2.43.0


From 8bafd0073f668a6f5dca10adf28118791dddb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 05/28] fix: number of blocks in API request must not crash or
 exhaust memory

---
 api/api.go        | 2 +-
 chains/storage.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index c6f42c5..892f5af 100644
--- a/api/api.go
+++ b/api/api.go
@@ -360,7 +360,7 @@ func (a *API) forkGenerators(w http.ResponseWriter, r *http.Request) {
 
 	count := chi.URLParam(r, "blocks")
 	c, err := strconv.Atoi(count)
-	if err != nil {
+	if err != nil || c < 0 {
 		http.Error(w, fmt.Sprintf("Invalid number of blocks '%s'", addr), http.StatusBadRequest)
 		return
 	}
diff --git a/chains/storage.go b/chains/storage.go
index 57e43f4..695c54c 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0) // Number of blocks is requested by user, do not allocate memory in advance.
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 010d5bd5a45861087cc329e7040431a77cdf3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 06/28] fix: refuse connections of peers known as hostile

---
 peers/registry.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..e5ca2fe 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,11 +82,11 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
-		p = Peer{}
+		p = Peer{AddressPort: netip.AddrPortFrom(addr, 0)}
+	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
 	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
-- 
2.43.0


From 0f01c04c3a3ce23a67818295c402cf669a1ce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 07/28] fix: do not panic on empty application name in
 handshake

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index e5ca2fe..9ea534f 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -96,7 +96,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From a1f8b8c2b367f195220b6ff9e3a43dfacd99d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 08/28] fix: close refused connections

---
 peers/registry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 9ea534f..55ed086 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -72,6 +72,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -138,6 +139,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From b30749e81489fee072792e20b1d4fdb8b3a082cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 09/28] fix: do not keep connection active if peer was not
 stored

---
 peers/registry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 55ed086..6d947d6 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -117,9 +117,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
-
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
-- 
2.43.0


From fbbba79a4412c2c69252c9e1c51208ae23826a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 10/28] fix: forget closed connection even if its record is not
 available

---
 peers/registry.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 6d947d6..4474a0a 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -166,6 +166,9 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	delete(r.pending, addr)
+	delete(r.connections, addr)
+
 	p, err := r.storage.peer(addr)
 	if err != nil {
 		if errors.Is(err, leveldb.ErrNotFound) {
@@ -174,9 +177,6 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 		return fmt.Errorf("failed to unregister peer '%s': %w", addr.String(), err)
 	}
 
-	delete(r.pending, addr)
-	delete(r.connections, addr)
-
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
 	p.p = nil
 
-- 
2.43.0


From cddbfccf6d840fb8884d3d6eaf28659caf72472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 11/28] fix: report failure to decode peer record

---
 peers/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/storage.go b/peers/storage.go
index b653beb..71c8ad2 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -78,7 +78,7 @@ func (s *storage) peer(addr netip.Addr) (Peer, error) {
 	}
 	val := new(value)
 	if umErr := cbor.Unmarshal(v, val); umErr != nil {
-		return Peer{}, err
+		return Peer{}, umErr
 	}
 	ver, err := proto.NewVersionFromString(val.Version)
 	if err != nil {
-- 
2.43.0


From 673de22ee2ac159e58bab9cc9f6dffa65b2af003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 12/28] fix: do not mistake IPv6 address for the IPv4 peer with
 the same key

---
 peers/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peers/storage.go b/peers/storage.go
index 71c8ad2..e124d86 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -66,6 +66,9 @@ func (s *storage) close() error {
 }
 
 func (s *storage) peer(addr netip.Addr) (Peer, error) {
+	if !addr.Is4() {
+		return Peer{}, leveldb.ErrNotFound // Only IPv4 peers are stored.
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return Peer{}, err
@@ -156,6 +159,9 @@ func (s *storage) peers() ([]Peer, error) {
 }
 
 func (s *storage) hasPeer(addr netip.Addr) (bool, error) {
+	if !addr.Is4() {
+		return false, nil // Only IPv4 peers are stored.
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return false, err
-- 
2.43.0


From 68044c0feb2c78a80a15be6f7de3d6491e7a5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 13/28] fix: report the actual cause of block append failure

---
 distributor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..99b2078 100644
--- a/distributor.go
+++ b/distributor.go
@@ -207,7 +207,7 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to parse peer remote address: %w", err)
 	}
 	if putErr := d.linkage.PutBlock(block, ap.Addr()); putErr != nil && !errors.Is(putErr, chains.ErrParentNotFound) {
-		return fmt.Errorf("failed to append block: %w", err)
+		return fmt.Errorf("failed to append block: %w", putErr)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
 	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
-- 
2.43.0


From b0faff09cf1982006eb492ab55733b1c1caa5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 14/28] fix: report failure to read leash while getting its
 score

---
 chains/linkage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 6dfea44..38b30a3 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -168,9 +168,10 @@ func (l *Linkage) LeashScore(addr netip.Addr) (*proto.Score, error) {
 
 	id, err := l.st.leash(addr)
 	if err != nil {
-		if errors.Is(err, leveldb.ErrNotFound) {
-			id = l.genesis
+		if !errors.Is(err, leveldb.ErrNotFound) {
+			return nil, fmt.Errorf("failed to get leash of '%s': %w", addr.String(), err)
 		}
+		id = l.genesis
 	}
 	bl, err := l.st.block(id)
 	if err != nil {
-- 
2.43.0


From 84e8a05488098a341452c2d2860feb0df4581140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 15/28] fix: report failures of storage iterators

---
 chains/storage.go | 6 ++++++
 peers/storage.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 695c54c..9628f59 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -435,6 +435,9 @@ func (s *storage) leashes() ([]Leash, error) {
 		}
 		r = append(r, Leash{Addr: addr, BlockID: id})
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to get leashes: %w", itErr)
+	}
 	return r, nil
 }
 
@@ -681,5 +684,8 @@ func (s *storage) getHeads(sn *leveldb.Snapshot) ([]uint64, []uint64, error) {
 		headNums = append(headNums, num)
 		blockNums = append(blockNums, binary.BigEndian.Uint64(it.Value()))
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, nil, itErr
+	}
 	return headNums, blockNums, nil
 }
diff --git a/peers/storage.go b/peers/storage.go
index e124d86..0ff64fa 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -155,6 +155,9 @@ func (s *storage) peers() ([]Peer, error) {
 		}
 		r = append(r, p)
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to collect peers: %w", itErr)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 65efdfeaf3382d17124d5aacd4a5b910999b3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 16/28] fix: do not lock Linkage recursively

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 38b30a3..b34b8c5 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -242,7 +242,7 @@ func (l *Linkage) LogInitialStats() {
 	}
 	zap.S().Infof("Heads count in storage: %d", len(heads))
 	for _, head := range heads {
-		b, blErr := l.Block(head.BlockID)
+		b, blErr := l.block(head.BlockID)
 		if blErr != nil {
 			zap.S().Errorf("Failed to get block: %v", blErr)
 			return
-- 
2.43.0


From 11034071872e7daec3dc44e0ff8c2778b06d58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 17/28] fix: refuse to open storage initialized with another
 genesis block

---
 chains/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 9628f59..fc93b00 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -61,6 +61,12 @@ func (s *storage) initialize(genesis proto.Block) error {
 	if err != nil {
 		return fmt.Errorf("failed to initialize blocks storage: %w", err)
 	}
+	if blocks != 0 {
+		// The storage is already initialized, check that it was done with the same genesis block.
+		if _, gnErr := s.getNumOfBlockID(sn, genesis.BlockID()); gnErr != nil {
+			return fmt.Errorf("failed to initialize blocks storage: genesis block mismatch: %w", gnErr)
+		}
+	}
 	if blocks == 0 {
 		ga, gaErr := proto.NewAddressFromPublicKey(s.scheme, genesis.GeneratorPublicKey)
 		if gaErr != nil {
-- 
2.43.0


From 97b31963d35b81a4c9522e2c7959b9dffff29f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 18/28] fix: close storage if construction of its owner failed

---
 chains/linkage.go | 1 +
 peers/registry.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index b34b8c5..be713d8 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -54,6 +54,7 @@ func NewLinkage(path string, scheme proto.Scheme, genesis proto.Block) (*Linkage
 		return nil, fmt.Errorf("failed to initialize Linkage: %w", err)
 	}
 	if iniErr := st.initialize(genesis); iniErr != nil {
+		_ = st.close()
 		return nil, fmt.Errorf("failed to initialize Linkage: %w", iniErr)
 	}
 	return &Linkage{
diff --git a/peers/registry.go b/peers/registry.go
index 4474a0a..3f0965c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -43,6 +43,7 @@ func NewRegistry(
 	if !declared.Empty() {
 		ap, err = netip.ParseAddrPort(declared.String())
 		if err != nil {
+			_ = s.close()
 			return nil, fmt.Errorf("failed to parse declared address: %w", err)
 		}
 	}
-- 
2.43.0


From c84500d3c45166a85ec27365ca996ef9beb090e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 19/28] fix: do not hang on shutdown if Loader is not receiving
 anymore

---
 distributor.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 99b2078..6190ea9 100644
--- a/distributor.go
+++ b/distributor.go
@@ -210,7 +210,10 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to append block: %w", putErr)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case <-d.ctx.Done():
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	}
 	return nil
 }
 
@@ -263,7 +266,7 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -278,7 +281,14 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
+}
+
+func (d *Distributor) sendIDs(p loading.IDsPackage) {
+	select {
+	case <-d.ctx.Done():
+	case d.idsCh <- p:
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From 14553c7c178c9aea8ec5f6c99caa7f75a4595b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 20/28] fix: keep respawning after a storage failure

---
 respawn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/respawn.go b/respawn.go
index 0a9aaef..c2670da 100644
--- a/respawn.go
+++ b/respawn.go
@@ -65,6 +65,7 @@ func (r *Respawn) handleEvents() error {
 
 			if err != nil {
 				zap.S().Warnf("Failed to take available addresses: %v", err)
+				r.timer.Reset(respawnInterval)
 				continue
 			}
 			r.establishConnections(addresses)
-- 
2.43.0


From 468cec45cf055e2a5a54b08071183cc96a402c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 21/28] fix: do not crash on shutdown if network server was not
 started

---
 listener.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..8c8f201 100644
--- a/listener.go
+++ b/listener.go
@@ -18,7 +18,6 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
-	nl net.Listener
 }
 
 func NewListener(bind, declared proto.TCPAddr, cm *ConnectionManager) Service {
@@ -49,10 +48,6 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
-	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
 	}
@@ -66,14 +61,20 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
-	l.nl = nl
+	// Unblock Accept on shutdown, Shutdown function must not use the listener that may not exist.
+	stop := context.AfterFunc(l.ctx, func() {
+		if clErr := nl.Close(); clErr != nil {
+			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, clErr)
+		}
+	})
+	defer stop()
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
-- 
2.43.0


From db4bb6f2c45528b36ff3e91e720f3792dab39e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 22/28] fix: close incoming connections that were not accepted

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..ff2ee19 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From a4e2b0c47576b3a936511975d3a3c14fe3d076da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 23/28] fix: do not panic on IPv6 addresses in parameters

---
 parameters.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..70d2e29 100644
--- a/parameters.go
+++ b/parameters.go
@@ -215,7 +215,6 @@ func parseAddress(addr string) proto.TCPAddr {
 	if err != nil {
 		return proto.TCPAddr{}
 	}
-	ip4 := ap.Addr().As4()
-	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
+	ip := net.IP(ap.Addr().AsSlice()).To16()
 	return proto.NewTCPAddr(ip, int(ap.Port()))
 }
-- 
2.43.0


From 468ec745b9b3eecd03e23950f74d72a1830813b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 24/28] fix: report failed loading even if received blocks were
 not applied

---
 loading/peer_loader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..32243bc 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,8 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				zap.S().Warnf("Failed to append block from peer '%s': %v", pl.peer.ID(), err)
+				break // Failure must be reported anyway.
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 797d29dfa7f677b7c5117f1ceff370a321d356a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 25/28] fix: do not apply blocks of completed loading again

---
 loading/peer_loader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 32243bc..795a0b4 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -231,6 +231,7 @@ func (pl *peerLoader) appendBlock(_ context.Context, args ...any) error {
 			}
 		}
 		zap.S().Debugf("[PL@%s] Blocks %s loaded", pl.peer.ID(), pl.queue.rangeString())
+		pl.queue = queue{} // Blocks are applied, they must not be applied again in case of later failure.
 		return pl.sm.Fire(eventQueueReady)
 	}
 	return nil
-- 
2.43.0


From 694bfbb4dc665951145e31f54612914e004a7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 26/28] fix: release loading peer if its progress could not be
 checked

---
 loading/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..4716c14 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -131,11 +131,13 @@ func (l *Loader) OK() {
 		p, err := l.registry.Peer(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get connection: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		score, err := l.linkage.LeashScore(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get peers score: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		if diff, lagging := l.isLagging(p.Score, score); lagging {
-- 
2.43.0


From cd66f6c5ec6a1d8593a34d1506511e0c19eb71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 27/28] fix: report active forks of connected peers only

---
 api/api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/api.go b/api/api.go
index 892f5af..bfe69b6 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,10 +308,13 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
-	forks, err := a.linkage.Forks(ps)
-	if err != nil {
-		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
-		return
+	forks := make([]chains.Fork, 0)
+	if len(ps) > 0 { // Empty list of peers means all ever connected peers.
+		forks, err = a.linkage.Forks(ps)
+		if err != nil {
+			http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
+			return
+		}
 	}
 	err = json.NewEncoder(w).Encode(forks)
 	if err != nil {
-- 
2.43.0


From 590c9e1cae3f0ecbaa6011c427af1c934034ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 28/28] fix: close the listening socket when the listener
 notices shutdown first

---
 listener.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/listener.go b/listener.go
index 8c8f201..885d40a 100644
--- a/listener.go
+++ b/listener.go
@@ -62,12 +62,11 @@ func (l *Listener) run() error {
 		return err
 	}
 	// Unblock Accept on shutdown, Shutdown function must not use the listener that may not exist.
-	stop := context.AfterFunc(l.ctx, func() {
+	context.AfterFunc(l.ctx, func() {
 		if clErr := nl.Close(); clErr != nil {
 			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, clErr)
 		}
 	})
-	defer stop()
 
 	for {
 		select {
-- 
2.43.0


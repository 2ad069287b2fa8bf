From 69a785f6231809091cf5f33d0c3e2354df57db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 01/30] fix: read sync handshakes and frames completely

Read may return fewer bytes than asked for, and may return the last bytes
together with io.EOF.
---
 pkg/sync/server.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..a8dab4f 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -4,6 +4,7 @@ package sync
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"os"
 	"strings"
@@ -63,7 +64,7 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
 						panic(err.Error())
 					}
@@ -275,24 +276,15 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
 			l := int(binary.LittleEndian.Uint64(dataLen))
 			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
+			if _, err := io.ReadFull(s.inDataConn[pid], buf); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
 			}
 
 			if len(buf) < 10 {
-- 
2.43.0


From 3fe238da224dea4848542f25097d7fe90d2bbb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 02/30] fix: malformed connections and frames of a peer must
 not crash the process

Drop connections with a broken, out of range or repeated pid and keep
accepting, dial again if the handshake cannot be sent, and report a frame
with a wrong pid as an error of that peer.
---
 pkg/sync/server.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index a8dab4f..2368bf5 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -28,6 +28,7 @@ type server struct {
 	roundID                 int64
 	net                     network.Server
 	inDataConn, outDataConn []network.Connection
+	inDataMx                sync.Mutex
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
 }
@@ -66,14 +67,17 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					_, err = io.ReadFull(conn, buf)
 					if err != nil {
-						panic(err.Error())
+						fmt.Fprintf(os.Stderr, "pid:%v: dropping an incoming connection: %v\n", s.pid, err)
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					if err := s.addInConn(pid, conn); err != nil {
+						fmt.Fprintf(os.Stderr, "pid:%v: dropping an incoming connection: %v\n", s.pid, err)
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -95,10 +99,14 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						fmt.Fprintf(os.Stderr, "pid:%v: succesfully dialed %v but then %v\n", s.pid, pid, err)
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						fmt.Fprintf(os.Stderr, "pid:%v: succesfully written %v but then %v\n", s.pid, pid, err)
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
@@ -108,6 +116,20 @@ func (s *server) Start() {
 	}()
 }
 
+// addInConn registers an incoming connection of the party pid
+func (s *server) addInConn(pid uint16, conn network.Connection) error {
+	s.inDataMx.Lock()
+	defer s.inDataMx.Unlock()
+	if pid >= s.nProc || pid == s.pid {
+		return fmt.Errorf("wrong pid %d", pid)
+	}
+	if s.inDataConn[pid] != nil {
+		return fmt.Errorf("connection with %d already established", pid)
+	}
+	s.inDataConn[pid] = conn
+	return nil
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
@@ -293,7 +315,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From 2e050bf51f9f0385fbc0878645dc925db7917409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 03/30] fix: do not allocate memory for a length announced by a
 peer

A peer could announce any 64-bit length: the process panicked or ran out
of memory before a single byte of the payload had arrived.
---
 pkg/sync/server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 2368bf5..88abc13 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,9 +2,11 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"os"
 	"strings"
@@ -302,12 +304,18 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			if _, err := io.ReadFull(s.inDataConn[pid], buf); err != nil {
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l > math.MaxInt32 {
+				errors[pid] = fmt.Errorf("rid:%v: received too large data length %v from %v", s.roundID, l, pid)
+				return
+			}
+			// the length is not to be trusted, so memory is allocated only for what has arrived
+			var body bytes.Buffer
+			if _, err := io.CopyN(&body, s.inDataConn[pid], int64(l)); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
 				return
 			}
+			buf := body.Bytes()
 
 			if len(buf) < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
-- 
2.43.0


From f96442f108d4ab027927e94ce76dceef1f62e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 04/30] fix: a sync round must not return while it is still
 sending

---
 pkg/sync/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 88abc13..877d7ff 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -173,6 +173,9 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	}()
 
 	data, missing, err := s.receiveFromAll(endRound)
+	// the next round must not start while this one is still sending
+	wg.Wait()
+
 	if err != nil {
 		return wrap(err)
 	}
@@ -181,8 +184,6 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		return newRoundError("Missing data from some parties", missing)
 	}
 
-	wg.Wait()
-
 	if errSend != nil {
 		return wrap(errSend)
 	}
-- 
2.43.0


From 36e9305dae1fc865ee72f34d4813cdc77420c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 05/30] fix: report every absent or rejected party of a sync
 round and validate the payloads of the others

---
 pkg/sync/server.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 877d7ff..db5e0ea 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -172,37 +172,41 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		errSend = s.sendToAll(toSend)
 	}()
 
-	data, missing, err := s.receiveFromAll(endRound)
+	data, missing, errReceive := s.receiveFromAll(endRound)
 	// the next round must not start while this one is still sending
 	wg.Wait()
 
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
-	if errSend != nil {
-		return wrap(errSend)
+	absent := make(map[uint16]bool, len(missing))
+	for _, pid := range missing {
+		absent[pid] = true
 	}
 
 	errors := []error{}
 	wrong := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
+		if pid == s.pid || absent[pid] {
 			continue
 		}
-		err = check(pid, data[pid])
+		err := check(pid, data[pid])
 		if err != nil {
 			errors = append(errors, err)
 			wrong = append(wrong, pid)
 		}
 	}
 
-	if len(wrong) > 0 {
-		return newRoundError(fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
+	if len(missing) > 0 || len(wrong) > 0 {
+		msg := ""
+		if errReceive != nil {
+			msg = errReceive.Error()
+		}
+		if len(wrong) > 0 {
+			msg += fmt.Sprintf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors)
+		}
+		return newRoundError(msg, append(missing, wrong...))
+	}
+
+	if errSend != nil {
+		return wrap(errSend)
 	}
 
 	// TODO: better timeout handling
@@ -358,7 +362,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From 8b7f6da701efcd8498fbd7e6ae7f1ecad113660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 06/30] fix: read encoded points completely and take only the
 neutral element's own bytes

---
 pkg/curve/secp256k1.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..e5c1f4a 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -123,28 +123,24 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 }
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return nil, err
-	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	lenBytes := make([]byte, 4)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, fmt.Errorf("Decoding lenX: %v", err)
 	}
 
-	lenX := binary.BigEndian.Uint32(lenBytes[:4])
+	// encoding of a neutral element is [0 0 0 0]
+	lenX := binary.BigEndian.Uint32(lenBytes)
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
-	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
-	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, fmt.Errorf("Decoding lenY: %v", err)
 	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	lenY := binary.BigEndian.Uint32(lenBytes)
+	xyBytes := make([]byte, lenX+lenY)
+	if _, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Decoding coordinates: %v", err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From f34b952dee9e73041eaae66ad7d8303e9bb7ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 07/30] fix: accept only encodings of points on the curve

---
 pkg/curve/secp256k1.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index e5c1f4a..92d8673 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -9,6 +9,9 @@ import (
 	"github.com/ethereum/go-ethereum/crypto/secp256k1"
 )
 
+// coordLen is the maximal length of an encoded coordinate
+const coordLen = 32
+
 // secpP implements the Point interface
 type sPoint struct {
 	x, y *big.Int
@@ -138,12 +141,18 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return nil, fmt.Errorf("Decoding lenY: %v", err)
 	}
 	lenY := binary.BigEndian.Uint32(lenBytes)
+	if lenX > coordLen || lenY > coordLen {
+		return nil, fmt.Errorf("Too long coordinates: %d and %d bytes", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if _, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Decoding coordinates: %v", err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("The decoded coordinates are not a point on the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From 3e2bd1b147d4c0bb6d4a4a6029700f7f3fc26546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 08/30] fix: scalar multiplication must not modify its operand,
 nor fail for the neutral element or scalars above the order

---
 pkg/curve/secp256k1.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 92d8673..420e9a3 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -72,22 +72,25 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	as := a.(sPoint)
+	if as.x == nil && as.y == nil {
+		return g.Neutral()
 	}
-	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
+	resultX, resultY := g.curve.ScalarMult(as.x, as.y, g.reduce(scale).Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
-	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
+	resultX, resultY := g.curve.ScalarBaseMult(g.reduce(scale).Bytes())
 	return sPoint{resultX, resultY}
 }
 
+// reduce returns scale modulo the group order, leaving the argument as it is
+func (g sGroup) reduce(scale *big.Int) *big.Int {
+	return new(big.Int).Mod(scale, g.curve.N)
+}
+
 func (g sGroup) Equal(a Point, b Point) bool {
 	as := a.(sPoint)
 	bs := b.(sPoint)
-- 
2.43.0


From 42bdfc898c1f1dffc61263a8e0926bee792e3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 09/30] fix: the sum of a point and its inverse is the neutral
 element

---
 pkg/curve/secp256k1.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 420e9a3..b834a7e 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -55,6 +55,8 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From f4cf97d36a43a5e46cfe50d3bb3c543336211892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 10/30] fix: read encoded proofs completely, limit their size
 and report damaged ones

---
 pkg/crypto/zkpok/zkpok.go | 65 +++++++++++++++------------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..92086e2 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -95,33 +95,35 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
+	var err error
+	if z.z1, z.z2, err = decodeResponses(r); err != nil {
 		return err
 	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
-	}
+	z.xy = &commitment.ElGamal{}
+	return z.xy.Decode(r)
+}
 
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
+// maxResponseLen is the maximal length of an encoded response of a prover
+const maxResponseLen = 32
 
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
+// decodeResponses reads two responses preceded by their lengths
+func decodeResponses(r io.Reader) (*big.Int, *big.Int, error) {
+	lenBytes := make([]byte, 8)
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return nil, nil, fmt.Errorf("Decoding lengths of a proof: %v", err)
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
+	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxResponseLen || z2Len > maxResponseLen {
+		return nil, nil, fmt.Errorf("Too long proof: %d and %d bytes", z1Len, z2Len)
 	}
 
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
-	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
+	allBytes := make([]byte, z1Len+z2Len)
+	if _, err := io.ReadFull(r, allBytes); err != nil {
+		return nil, nil, fmt.Errorf("Decoding a proof: %v", err)
+	}
 
-	return nil
+	return new(big.Int).SetBytes(allBytes[:z1Len]), new(big.Int).SetBytes(allBytes[z1Len:]), nil
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -280,31 +282,12 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
+	var err error
+	if z.z1, z.z2, err = decodeResponses(r); err != nil {
 		return err
 	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
-	}
-
-	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	allBytes := make([]byte, z1Len+z2Len)
-
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
-	}
-	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From d4aa066f2ecfca1aba9cacdf8a653321e5b241ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 11/30] fix: creating a proof fails when randomness is not
 available

---
 pkg/crypto/zkpok/zkpok.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 92086e2..45cca95 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -29,8 +29,14 @@ type ZKEGKnow struct {
 //NewZKEGKnow creates ZKEGKnow proof of knowledge of witness (value, r) for commitment c
 func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value, rnd *big.Int) (*ZKEGKnow, error) {
 	order := fct.Curve().Order()
-	sigma, _ := rand.Int(rand.Reader, order)
-	rho, _ := rand.Int(rand.Reader, order)
+	sigma, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
+	rho, err := rand.Int(rand.Reader, order)
+	if err != nil {
+		return nil, err
+	}
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -208,8 +214,14 @@ type ZKEGRefresh struct {
 //NewZKEGRefresh creates ZKEGRefresh proof of knowledge
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
-	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
+	sigma, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
+	tau, err := rand.Int(rand.Reader, g.Order())
+	if err != nil {
+		return nil, err
+	}
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
-- 
2.43.0


From ae6ef5a5222e5e3b0200eea6ce40293d7e836a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 12/30] fix: bind the commitments of a proof to its challenge
 and reject responses out of range

---
 pkg/crypto/zkpok/zkpok.go | 55 +++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 45cca95..c200db5 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -26,6 +26,17 @@ type ZKEGKnow struct {
 	xy *commitment.ElGamal
 }
 
+// challenge hashes everything the prover has fixed before responding
+func challenge(comms ...*commitment.ElGamal) (*big.Int, error) {
+	buf := &bytes.Buffer{}
+	for _, comm := range comms {
+		if err := comm.Encode(buf); err != nil {
+			return nil, err
+		}
+	}
+	return pkg.HashToBigInt(buf.Bytes()), nil
+}
+
 //NewZKEGKnow creates ZKEGKnow proof of knowledge of witness (value, r) for commitment c
 func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value, rnd *big.Int) (*ZKEGKnow, error) {
 	order := fct.Curve().Order()
@@ -38,19 +49,17 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 		return nil, err
 	}
 
+	xy := fct.Create(rho, sigma)
+
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
-	buf := &bytes.Buffer{}
-	if err := comm.Encode(buf); err != nil {
+	e, err := challenge(comm, xy)
+	if err != nil {
 		return nil, err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
-	d := fct.Neutral()
-	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -63,12 +72,15 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 
 //Verify verifies proof z of knowledge of value and r for commitment c
 func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGamal) error {
-	d := fct.Neutral()
-	buf := &bytes.Buffer{}
-	if err := comm.Encode(buf); err != nil {
+	order := fct.Curve().Order()
+	if z.z1.Cmp(order) >= 0 || z.z2.Cmp(order) >= 0 {
+		return fmt.Errorf("responses out of range")
+	}
+	e, err := challenge(comm, z.xy)
+	if err != nil {
 		return err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
+	d := fct.Neutral()
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
 	if !comm.Equal(d, fct.Create(z.z2, z.z1)) {
@@ -223,15 +235,14 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 		return nil, err
 	}
 
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
-	buf := &bytes.Buffer{}
-	if err := c1.Encode(buf); err != nil {
-		return nil, err
-	}
-	if err := c2.Encode(buf); err != nil {
+	e, err := challenge(c1, c2, xy)
+	if err != nil {
 		return nil, err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
 	var z2 big.Int
@@ -239,8 +250,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -251,14 +260,14 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 
 //Verify verifies ZKEGRefresh proof
 func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error {
-	buf := &bytes.Buffer{}
-	if err := c1.Encode(buf); err != nil {
-		return err
+	order := fct.Curve().Order()
+	if z.z1.Cmp(order) >= 0 || z.z2.Cmp(order) >= 0 {
+		return fmt.Errorf("responses out of range")
 	}
-	if err := c2.Encode(buf); err != nil {
+	e, err := challenge(c1, c2, z.xy)
+	if err != nil {
 		return err
 	}
-	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
-- 
2.43.0


From afd52cc21bb90a45466d53572b1686cecde51817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 13/30] fix: a refreshment proof must not accept a refreshment
 of a multiple of the commitment

---
 pkg/crypto/zkpok/zkpok.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index c200db5..916409f 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -230,13 +230,8 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err != nil {
 		return nil, err
 	}
-	tau, err := rand.Int(rand.Reader, g.Order())
-	if err != nil {
-		return nil, err
-	}
 
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	e, err := challenge(c1, c2, xy)
@@ -247,7 +242,7 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	var z1 big.Int
 	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
+	z2.Set(e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
 
@@ -268,6 +263,10 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err != nil {
 		return err
 	}
+	// otherwise c2 could be a refreshment of a multiple of c1
+	if z.z2.Cmp(new(big.Int).Mod(e, order)) != 0 {
+		return fmt.Errorf("verification failed")
+	}
 
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
-- 
2.43.0


From ad538a70e03689c023fd075a9721cb84942cfdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 14/30] fix: secrets are integers modulo the order of the
 group, not the order of the field

---
 pkg/arith/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..7f6d680 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -4,10 +4,12 @@ import (
 	"crypto/rand"
 	"io"
 	"math/big"
+
+	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the group
+	Q = new(big.Int).Set(curve.NewSecp256k1Group().Order())
 )
-- 
2.43.0


From 62941ea9442800f832b4c35a05d1d3d3721bdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 15/30] fix: decode commitments of peers completely and without
 trusting their announced lengths

---
 pkg/arith/distributed_key.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..53d6e49 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -77,36 +77,21 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc lengths: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
+	// the lengths are not to be trusted, so memory is allocated only for what is there
+	var dataBuf, zkpBuf bytes.Buffer
+	if _, err := io.CopyN(&dataBuf, r, int64(binary.LittleEndian.Uint32(lenBytes[:4]))); err != nil {
+		return fmt.Errorf("nmc dataBytes: %v", err)
 	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
-	}
-
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if _, err := io.CopyN(&zkpBuf, r, int64(binary.LittleEndian.Uint32(lenBytes[4:8]))); err != nil {
+		return fmt.Errorf("nmc zkpBytes: %v", err)
 	}
+	nmc.dataBytes, nmc.zkpBytes = dataBuf.Bytes(), zkpBuf.Bytes()
 
 	return nil
-
 }
 
 // Verify tests if ncm is a commitment to given args
-- 
2.43.0


From b7cfccffd82c6bf1f7c516cf50e0be7498a8062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 16/30] fix: a too short share of a peer must not crash
 resharing

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..f764efd 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -340,6 +340,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From bd61259291d5831496230044cb12a96a3456ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 17/30] fix: reduce the randomness sent with a share, its size
 reveals the randomness of other commitments

---
 pkg/arith/reshare.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index f764efd..1e6d324 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -272,6 +272,8 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		// Randomizing element effectively used in the commitment is mult of the initial one and rerandomizing one
 		effectiveRandEval[pid] = big.NewInt(0)
 		effectiveRandEval[pid].Add(randEvalRefresh[pid], egEvalRands[pid])
+		// an unreduced sum would tell the recipient the leading bits of its summands
+		effectiveRandEval[pid].Mod(effectiveRandEval[pid], order)
 
 		evalRefreshComm[pid] = ads.egf.Neutral()
 		evalRefreshComm[pid].Compose(egEval[pid], ads.egf.Create(big.NewInt(0), randEvalRefresh[pid]))
-- 
2.43.0


From 9f875bde50e8bbe9134b5ba1f666eb60f5cfaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 18/30] fix: resharing returns the new share and its commitment
 instead of the old one

---
 pkg/arith/reshare.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 1e6d324..d7a3c7d 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -433,10 +433,13 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand.Mod(shareRand, order)
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From c4fbae546a32a2fb4063355ec9677cccd4cdb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 19/30] fix: reveal a threshold secret by interpolation, and
 only if there are enough shares

---
 pkg/arith/distributed_secret.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..e3e6680 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -64,21 +64,30 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
+	errRound := tds.server.Round(toSend, check)
+
+	order := tds.egf.Curve().Order()
+	args := make([]*big.Int, 0, tds.t)
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
 		}
 	}
+	if len(args) < int(tds.t) {
+		if errRound == nil {
+			errRound = fmt.Errorf("too few shares")
+		}
+		return nil, errRound
+	}
 
 	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
-		}
+	for _, arg := range args {
+		term := lagrangeCoef(arg, args, order)
+		term.Mul(term, secrets[arg.Int64()])
+		sum.Add(sum, term)
 	}
 
-	return sum, nil
+	return sum.Mod(sum, order), nil
 }
 
 // Exp computes a common public key and its share related to this secret
-- 
2.43.0


From 8cf090ba20560459d6a2e413622e936a66a98ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 20/30] fix: compute the public key from any threshold of
 shares, and fail if there are fewer

---
 pkg/arith/distributed_secret.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index e3e6680..ef1b647 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -117,31 +117,26 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
-		}
-	}
-
-	var wg stdsync.WaitGroup
-	channel := make(chan curve.Point, nProc)
-	counter := tds.t
+	errRound := tds.server.Round([][]byte{toSendBuf.Bytes()}, check)
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+	}
+	if len(args) < int(tds.t) {
+		if errRound == nil {
+			errRound = fmt.Errorf("too few shares")
 		}
+		return nil, errRound
 	}
 
+	var wg stdsync.WaitGroup
+	channel := make(chan curve.Point, len(args))
+
 	for i, arg := range args {
 		wg.Add(1)
 		go func(i int, arg *big.Int) {
-- 
2.43.0


From 927faa8ef6d43f607fa72ad7c1d452ac5abdc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 21/30] fix: linear combinations belong to the party computing
 them and are taken modulo the order

---
 pkg/arith/distributed_secret.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index ef1b647..c8d6597 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -221,14 +221,23 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
 	tds.t = a.t
+	if b.t > tds.t {
+		tds.t = b.t
+	}
 
-	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
-	tmp := new(big.Int).Mul(beta, b.skShare)
-	tds.skShare.Add(tds.skShare, tmp)
+	order := tds.egf.Curve().Order()
+	lin := func(ax, bx *big.Int) *big.Int {
+		x := new(big.Int).Mul(alpha, ax)
+		x.Add(x, new(big.Int).Mul(beta, bx))
+		return x.Mod(x, order)
+	}
+	tds.skShare = lin(a.skShare, b.skShare)
+	tds.r = lin(a.r, b.r)
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From aa997078984c05833a065cb0cadffc70be99a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 22/30] fix: the product of secrets can be used by every party

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..7cd9562 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,6 +18,8 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
+	c.egf = a.egf
 	c.label = cLabel
 	c.server = a.server
 
-- 
2.43.0


From a8b8512cf4c4661f15808b4f8660cd16e78d6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 23/30] fix: private multiplication decrypts what was sent and
 reduces the result modulo the order

---
 pkg/arith/mult.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 7cd9562..6082e9c 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -199,7 +199,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
+		negMyShare := new(big.Int).Neg(myShares[id])
+		negMyShare.Mod(negMyShare, pubs[id].N)
 		enc, err := pubs[id].Encrypt(negMyShare)
 		if err != nil {
 			return err
@@ -234,10 +235,13 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			var err error
 			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
+			// the plaintext aa'-t may be negative
+			if new(big.Int).Lsh(abmts[id], 1).Cmp(pub.N) > 0 {
+				abmts[id].Sub(abmts[id], pub.N)
+			}
 		}
 
 		return nil
@@ -256,9 +260,6 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
 
-	return share, nil
+	return share.Mod(share, Q), nil
 }
-- 
2.43.0


From e86d0ff8f0f3c03b7b82b514994635d9f18bf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 24/30] fix: signing divides modulo the order and returns the
 first component of the signature intact

---
 pkg/tecdsa/tecdsa.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..912219d 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,13 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("The presignature is not invertible")
+	}
+	alpha := new(big.Int).Mul(message, tauInv)
+	beta := new(big.Int).Mul(r, tauInv)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From 77deac6bfdba925db665dce9128357d284fd5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 25/30] fix: private multiplication multiplies shares of one
 secret by shares of the other

---
 pkg/arith/mult.go | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 6082e9c..24c95db 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -141,40 +141,25 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run two MtAs: we act as Bob in the one for our a and their b,
+	// and as Alice in the one for their a and our b.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for their Enc(a').
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
+		if id != pid {
 			toSendBuf1[id] = encA.Bytes()
 		}
 	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
-			encShares[id] = new(big.Int).SetBytes(data)
-		}
+		encShares[id] = new(big.Int).SetBytes(data)
 
 		return nil
 	}
@@ -183,13 +168,12 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for their Enc(ab'-t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
-	genEncABmt := func(id int, share *big.Int) error {
+	genEncABmt := func(id int) error {
 		var err error
-		encABmt, err := pubs[id].HomoMult(share, encShares[id])
+		encABmt, err := pubs[id].HomoMult(b, encShares[id])
 		if err != nil {
 			return err
 		}
@@ -216,14 +200,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
-			if err := genEncABmt(id, b); err != nil {
+		if id != pid {
+			if err := genEncABmt(id); err != nil {
 				return nil, err
 			}
 		}
@@ -233,12 +211,11 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
-			// the plaintext aa'-t may be negative
+			// the plaintext ab'-t' may be negative
 			if new(big.Int).Lsh(abmts[id], 1).Cmp(pub.N) > 0 {
 				abmts[id].Sub(abmts[id], pub.N)
 			}
-- 
2.43.0


From 7d5c6b68bd38c4ce0097d00aa3defb230c5b296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 26/30] fix: gen_keys writes LambdaN and PhiN of a private key,
 not its modulus again

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From 70fec1eb7c669132096afee28d12bf1a8f2fa310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 27/30] fix: gen_keys reports failing key generation and too
 few addresses

---
 cmd/gen_keys/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1bd5dd9..93f6f3c 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -79,14 +79,25 @@ func main() {
 		}
 		defer f.Close()
 		scanner := bufio.NewScanner(f)
-		for pid := 0; pid < nProc && scanner.Scan(); pid++ {
+		scanner.Split(bufio.ScanWords)
+		pid := 0
+		for ; pid < nProc && scanner.Scan(); pid++ {
 			addresses[pid] = scanner.Text()
 		}
+		if err := scanner.Err(); err != nil {
+			fmt.Fprintln(os.Stderr, "Cannot read file ", os.Args[2], err)
+			return
+		}
+		if pid < nProc {
+			fmt.Fprintln(os.Stderr, "Too few addresses in file ", os.Args[2])
+			return
+		}
 	}
 	processes := make([]*proc, nProc)
 	for i := 0; i < nProc; i++ {
 		processes[i], err = makeProcess(addresses[i])
 		if err != nil {
+			fmt.Fprintln(os.Stderr, err)
 			return
 		}
 	}
-- 
2.43.0


From dc6a03ad27b74185d6ea4f587e19c18ebf2009d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 28/30] fix: gen_keys closes every file it has written and
 reports errors of closing

---
 cmd/gen_keys/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 93f6f3c..27db615 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -109,11 +109,6 @@ func main() {
 			fmt.Fprintln(os.Stderr, err)
 			return
 		}
-		defer f.Close()
-		if err != nil {
-			fmt.Fprintln(os.Stderr, err)
-			return
-		}
 
 		if _, err = f.WriteString(encodePaillierPrivateKey(p.privateKey)); err != nil {
 			fmt.Fprintln(os.Stderr, err)
@@ -131,6 +126,10 @@ func main() {
 			fmt.Fprintln(os.Stderr, err)
 			return
 		}
+		if err = f.Close(); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			return
+		}
 	}
 
 	f, err := os.Create("keys_addrs")
@@ -138,7 +137,6 @@ func main() {
 		fmt.Fprintln(os.Stderr, err.Error())
 		return
 	}
-	defer f.Close()
 	for _, p := range processes {
 
 		if _, err := f.WriteString(base64.StdEncoding.EncodeToString((p.publicKey.N.Bytes()))); err != nil {
@@ -158,4 +156,7 @@ func main() {
 			return
 		}
 	}
+	if err = f.Close(); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+	}
 }
-- 
2.43.0


From b5335b7668f966c615762655570abcb5008acc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 29/30] fix: damaged private key files are refused instead of
 crashing the reader

---
 cmd/tecdsa/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..966146c 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -37,6 +37,9 @@ type committee struct {
 }
 
 func decodeBigInt(data []byte, name string) (*big.Int, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
+	}
 	lenX := binary.LittleEndian.Uint16(data[:2])
 	if len(data) < 2+int(lenX) {
 		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
@@ -46,6 +49,9 @@ func decodeBigInt(data []byte, name string) (*big.Int, error) {
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
 	pk.PublicKey.N, err = decodeBigInt(data, "N")
-- 
2.43.0


From b61b176f6ef17825a7d36a71ba75bd922c4f5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 30/30] fix: tecdsa refuses a negative process id, no
 signatures and thresholds out of range

---
 cmd/tecdsa/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 966146c..8b65c06 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -244,6 +244,18 @@ func main() {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
+	if member.pid < 0 {
+		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
+		return
+	}
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold: %d.\n", options.threshold)
+		return
+	}
 
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
-- 
2.43.0


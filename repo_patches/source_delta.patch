From fd1139951548b4671a771d28a945a3d7f236b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 01/46] fix: a threshold signature needs Threshold distinct,
 known signers

ThresholdVerify checked the aggregate against whatever ids the object
claimed, so a single gossiper (or one listed several times, or an unknown
id) could produce an accepted threshold object.
---
 crypto/crypto_config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..7fcb613 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -74,6 +74,17 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// at least Threshold distinct, known signers are required
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if _, ok := c.ThresholdPublicMap[id]; !ok || signers[id] {
+				return errors.New("Threshold Signature Verification Failed")
+			}
+			signers[id] = true
+		}
+		if len(signers) < c.Threshold || sig.Sign == nil {
+			return errors.New("Threshold Signature Verification Failed")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From 55d1fb4cb5074cc96d7c009a60c317ccb5a0fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 02/46] fix: reject fragments and threshold objects whose
 signature does not parse

The parse errors were dropped and the empty signature was handed to the
BLS library, which dereferences it (process crash on a malformed object).
A fragment is also bound to the gossiper it names as its signer.
---
 crypto/crypto_config.go |  3 +++
 definition/Verify.go    | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index 7fcb613..269abf3 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -98,6 +98,9 @@ func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) FragmentVerify(msg string, sig SigFragment) error {
 	if c.ThresholdScheme == "bls" {
+		if _, ok := c.ThresholdPublicMap[sig.ID]; !ok || sig.Sign == nil {
+			return errors.New("Signature Fragment Verification Failed")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..e044f5c 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -41,8 +41,11 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil || sig.ID.String() != g.Signer {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +58,11 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
-- 
2.43.0


From 155bcc114178a2d271652926e8d9beea15d43a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:40 +0000
Subject: [PATCH 03/46] fix: one period label per statement, in every minute of
 the hour

CAs and loggers label the statement for the next period. The label was
not zero padded (unlike the one monitors, gossipers and threshold objects
use, so nothing matched during minutes 00-09), minute 59 produced "60"
(never served), and the STH content carried the previous period. The
threshold object now takes the period of its fragments.
---
 CA/server.go          | 6 +++---
 Logger/buildmerkle.go | 8 +++++---
 Logger/server.go      | 2 +-
 gossiper/gen.go       | 2 +-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 238c020..d2d931b 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -149,10 +149,10 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	}
 	// convert int to string
 	// add a leading 0 if the string is only 1 digit
+	Period = strconv.Itoa(periodnum)
 	if periodnum < 10 {
 		Period = "0" + strconv.Itoa(periodnum)
 	}
-	Period = strconv.Itoa(periodnum)
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -409,13 +409,13 @@ func PeriodicTask(ctx *CAContext) {
 		if err != nil {
 		}
 		// add 1 to current period
-		periodnum = periodnum + 1
+		periodnum = (periodnum + 1) % 60
 		// convert int to string
 		// add a leading 0 if the string is only 1 digit
+		period = strconv.Itoa(periodnum)
 		if periodnum < 10 {
 			period = "0" + strconv.Itoa(periodnum)
 		}
-		period = strconv.Itoa(periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..40b5147 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,7 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
+	"fmt"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -25,10 +25,12 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 			LoggerID:     ctx.Logger_private_config.Signer,
 		})
 	}
+	// the signed period and the label of the gossip object are both the period this STH is for
+	period := fmt.Sprintf("%02d", periodNum%60)
 	STH1 := definition.STH{
 		Signer:    string(ctx.Logger_private_config.Signer),
 		Timestamp: util.GetCurrentTimestamp(),
-		Period:    util.GetCurrentPeriod(),
+		Period:    period,
 		RootHash:  hex.EncodeToString(roothash),
 		TreeSize:  len(blocks),
 	}
@@ -40,7 +42,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        period,
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..2ca6079 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -214,7 +214,7 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		periodint = periodint + 1
+		periodint = (periodint + 1) % 60
 		period = strconv.Itoa(periodint)
 		// add a leading zero if the period is less than 10
 		if periodint < 10 {
diff --git a/gossiper/gen.go b/gossiper/gen.go
index f36674f..ea70667 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -69,7 +69,7 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FULL(g_list []definition.Goss
 	return definition.Gossip_object{
 		Application:   definition.CTNG_APPLICATION,
 		Type:          TargetType,
-		Period:        util.GetCurrentPeriod(),
+		Period:        g_list[0].Period,
 		Signer:        "",
 		Signers:       signer_list,
 		Signature:     [2]string{sig_full_string, ""},
-- 
2.43.0


From dd0e0588c6bcaf96b0f82f5bea7af78c9431127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:42 +0000
Subject: [PATCH 04/46] fix: bind STH and REV statements to their signer,
 subject and period

Verify used the key of the id inside the signature string and never
compared it with the claimed signer or the subject of the statement, so
any key holder could speak for any logger or CA; the period label is
outside the signed content, so an old statement could be relabelled.
---
 definition/Verify.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index e044f5c..1d506b5 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -5,10 +5,10 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/util"
-	//"strings"
 	//"time"
 )
 
@@ -38,6 +38,29 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	return errors.New("Message Signature Mismatch" + fmt.Sprint(sigerr1) + fmt.Sprint(sigerr2))
 }
 
+// SignedPeriod returns the period inside the signed content (the concatenated
+// payload) of an STH or a REV made by the given entity.
+func SignedPeriod(entity string, content string) (string, error) {
+	if !strings.HasPrefix(content, entity) {
+		return "", errors.New(Mislabel)
+	}
+	statement := []byte(strings.TrimPrefix(content, entity))
+	if rev := strings.Index(string(statement), "{"); rev >= 0 {
+		// REV: scheme followed by the json encoded revocation
+		statement = statement[rev:]
+	} else {
+		// STH: hex encoded json
+		sth, err := hex.DecodeString(string(statement))
+		if err != nil {
+			return "", err
+		}
+		statement = sth
+	}
+	var signed struct{ Period string }
+	err := json.Unmarshal(statement, &signed)
+	return signed.Period, err
+}
+
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
@@ -76,9 +99,16 @@ func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
 		sig, err := crypto.RSASigFromString(g.Signature[0])
-		if err != nil {
+		if err != nil || sig.ID.String() != g.Signer {
 			return errors.New(No_Sig_Match)
 		}
+		if g.Type == STH_INIT || g.Type == REV_INIT {
+			// the statement must be about its signer, for the period it is labelled with
+			period, err := SignedPeriod(g.Payload[0], g.Payload[0]+g.Payload[1]+g.Payload[2])
+			if err != nil || g.Payload[0] != g.Signer || period != g.Period {
+				return errors.New(Mislabel)
+			}
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 7e77383282ab92eefc3ac6a00bc3b0d5af9c0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:45 +0000
Subject: [PATCH 05/46] fix: a conflict proof must show two different
 statements of the accused for one period

Verify_CON accepted any two signed messages: the same statement twice,
statements of different periods, or of different or foreign signers.
---
 definition/Verify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index 1d506b5..2854b82 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -24,6 +24,13 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// both statements must be made by the accused, for the same period, and differ
+		period1, perr1 := SignedPeriod(g.Payload[0], g.Payload[1])
+		period2, perr2 := SignedPeriod(g.Payload[0], g.Payload[2])
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] ||
+			perr1 != nil || perr2 != nil || period1 != period2 || g.Payload[1] == g.Payload[2] {
+			return errors.New(Mislabel)
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
-- 
2.43.0


From 5306e8c5f27ca1266fad0f9d132cc5b07518d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:39 +0000
Subject: [PATCH 06/46] fix: check that the signed content is what type and
 period of the object say

Neither is covered by a signature: the threshold object of an honest
logger's STH could be relabelled into an accusation against that logger
(and the other way round), and any statement to another period.
---
 definition/Verify.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 2854b82..144976d 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -110,9 +110,8 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 			return errors.New(No_Sig_Match)
 		}
 		if g.Type == STH_INIT || g.Type == REV_INIT {
-			// the statement must be about its signer, for the period it is labelled with
-			period, err := SignedPeriod(g.Payload[0], g.Payload[0]+g.Payload[1]+g.Payload[2])
-			if err != nil || g.Payload[0] != g.Signer || period != g.Period {
+			// the statement must be about its signer
+			if g.Payload[0] != g.Signer {
 				return errors.New(Mislabel)
 			}
 		}
@@ -123,11 +122,37 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 	}
 }
 
+// Verify_Content checks that the signed content is what the type and the period
+// of the object say, since neither of the two is covered by the signature
+func Verify_Content(g Gossip_object) error {
+	switch g.Type {
+	case STH_INIT, STH_FRAG, STH_FULL:
+		var sth STH
+		content, err := hex.DecodeString(g.Payload[1])
+		if err != nil || json.Unmarshal(content, &sth) != nil || sth.Period != g.Period || g.Payload[2] != "" {
+			return errors.New(Mislabel)
+		}
+	case REV_INIT, REV_FRAG, REV_FULL:
+		var rev Revocation
+		if json.Unmarshal([]byte(g.Payload[2]), &rev) != nil || rev.Period != g.Period || g.Payload[1] != "CRV" {
+			return errors.New(Mislabel)
+		}
+	case ACC_INIT, ACC_FRAG, ACC_FULL:
+		if g.Payload[1] != "" || g.Payload[2] != "" {
+			return errors.New(Mislabel)
+		}
+	}
+	return nil
+}
+
 // Verifies Gossip object based on the type:
 // STH and Revocations use RSA
 // Trusted information Fragments use BLS SigFragments
 // PoMs use Threshold signatures
 func (g Gossip_object) Verify(c *crypto.CryptoConfig) error {
+	if err := Verify_Content(g); err != nil {
+		return err
+	}
 	// If everything Verified correctly, we return nil
 	switch g.Type {
 	case STH_INIT:
-- 
2.43.0


From d0969d21f3ba4624e21e8a8542ad9fe7ff3f948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 07/46] fix: do not hand a threshold object that failed
 verification to the monitor

---
 gossiper/gossiper_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..3dc0f04 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -368,7 +368,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		proceed := c.Store(gossip_obj)
+		if !proceed {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From a8285eff34a465a2d4009d1e7e9eda572fa092f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:10 +0000
Subject: [PATCH 08/46] fix: a gossiper signs only the accusations of its own
 monitor

Any gossiper signed any accusation posted to it, so a single monitor could
get the threshold of fragments against an honest entity.
---
 gossiper/gossiper_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3dc0f04..f9c92ea 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -302,6 +302,10 @@ func Handle_ACC_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		// we already have enough fragments, we just ignore the init
 		return
 	}
+	// only the accusations of our own monitor are ours to sign
+	if gossip_obj.Signer != c.Gossiper_private_config.Owner_URL {
+		return
+	}
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
-- 
2.43.0


From 562b68272f56bf2cb630bca01a020efdecc97bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 09/46] fix: two conflicting statements handled at the same
 time must not hide the conflict

The check for an earlier, different statement was made before and outside
the critical section that stores the new one, so the second of two
concurrent conflicting statements replaced the first one unnoticed.
---
 gossiper/Interface.go       | 13 +++++------
 gossiper/gossiper_server.go | 44 ++++++++++++++++++-------------------
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..b51ca6b 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -257,15 +257,12 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
-		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		// the first statement stays: a different one is evidence, not a replacement
+		_, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]
+		return ok
 	case definition.REV_INIT:
-		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; !ok {
-			return false
-		}
-		return ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()].Signature == gossip_object.Signature
+		_, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]
+		return ok
 	case definition.ACC_INIT:
 		if _, ok := ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()]; !ok {
 			return false
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index f9c92ea..1ef97e0 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -218,20 +218,19 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		// we already have enough fragments, we just ignore the init
 		return
 	}
-	//check Malicious
-	if c.IsMalicious(gossip_obj) {
-		// if it is malicious, the list is not empty
-		fmt.Println(util.RED, "Received malicious object STH_INIT signed by "+gossip_obj.Signer+".", util.RESET)
-		obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
-		obj_2 := gossip_obj
-		CON := c.Generate_CON_INIT(obj_1, obj_2)
-		//fmt.Println("CON: ", CON)
-		Handle_Gossip_object(c, CON)
-		return
-	}
-	// if not malicious, we store the object
+	// store the object; this fails if there already is one
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		//check Malicious
+		if c.IsMalicious(gossip_obj) {
+			// if it is malicious, the list is not empty
+			fmt.Println(util.RED, "Received malicious object STH_INIT signed by "+gossip_obj.Signer+".", util.RESET)
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			obj_2 := gossip_obj
+			CON := c.Generate_CON_INIT(obj_1, obj_2)
+			//fmt.Println("CON: ", CON)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -261,21 +260,20 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		// we already have enough fragments, we just ignore the init
 		return
 	}
-	//check Malicious
-	if c.IsMalicious(gossip_obj) {
-		// if it is malicious, the list is not empty
-		obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
-		obj_2 := gossip_obj
-		CON := c.Generate_CON_INIT(obj_1, obj_2)
-		Handle_Gossip_object(c, CON)
-		return
-	}
-	// if not malicious, we store the object
-	// we send the object to the gossipers
+	// store the object; this fails if there already is one
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		//check Malicious
+		if c.IsMalicious(gossip_obj) {
+			// if it is malicious, the list is not empty
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			obj_2 := gossip_obj
+			CON := c.Generate_CON_INIT(obj_1, obj_2)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
+	// we send the object to the gossipers
 	c.Send_to_Gossipers(gossip_obj)
 	// also send to the monitor
 	c.Send_to_Monitor(gossip_obj)
-- 
2.43.0


From 6f1a24778f187f93c24bee4e64f63181df78d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:36 +0000
Subject: [PATCH 10/46] fix: only valid fragments of distinct signers on one
 payload count towards the threshold

Fragments were stored and counted unverified. One garbage fragment, a
fragment on another payload, or the same fragment received twice at the
same time made the only aggregation attempt fail, and the threshold
object was never built.
---
 gossiper/Interface.go       | 41 +++++++++++++++++++++++--------------
 gossiper/gossiper_server.go |  7 ++++++-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index b51ca6b..53e6493 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -224,36 +224,47 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// Read_and_Store_If_Needed returns how many fragments on the same payload were stored before.
+// Fragments that are invalid, or whose signer is already counted, do not count towards the threshold.
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
+	threshold := ctx.Gossiper_crypto_config.Threshold
+	if gossip_object.Verify(ctx.Gossiper_crypto_config) != nil {
+		return threshold
+	}
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return addFragment(ctx.Gossip_object_storage.STH_FRAG, gossip_object, threshold)
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return addFragment(ctx.Gossip_object_storage.REV_FRAG, gossip_object, threshold)
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return addFragment(ctx.Gossip_object_storage.ACC_FRAG, gossip_object, threshold)
 	}
 	return 0
 
 }
+
+func addFragment(fragmentMap map[definition.Gossip_ID][]definition.Gossip_object, gossip_object definition.Gossip_object, threshold int) int {
+	before := 0
+	for _, fragment := range fragmentMap[gossip_object.GetID()] {
+		if fragment.Payload == gossip_object.Payload {
+			if fragment.Signer == gossip_object.Signer {
+				return threshold
+			}
+			before++
+		}
+	}
+	if before < threshold {
+		fragmentMap[gossip_object.GetID()] = append(fragmentMap[gossip_object.GetID()], gossip_object)
+	}
+	return before
+}
+
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 1ef97e0..ad45183 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -352,7 +352,12 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		itemlist := []definition.Gossip_object{}
+		for _, item := range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type) {
+			if item.Payload == gossip_obj.Payload {
+				itemlist = append(itemlist, item)
+			}
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From 2ea0a00f777c29c0b4144e8bdf97f0c3c198475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:20 +0000
Subject: [PATCH 11/46] fix: wipe the gossiper storage under its locks

WipeStorage overwrote the whole storage struct, locks included, while
requests were being handled: unlock of an unlocked mutex (process exit),
or two handlers in one critical section.
---
 gossiper/Interface.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 53e6493..29a1054 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -634,16 +634,41 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 	return false
 }
 
+// clear all storage except the conflict proofs and the blacklist.
+// Requests may be handled meanwhile, so the locks stay as they are.
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
-	// clear all PoM counter and gossiper log
+	fresh := InitializeGossipObjectStorage()
+	storage := ctx.Gossip_object_storage
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = fresh.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = fresh.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = fresh.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = fresh.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = fresh.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = fresh.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = fresh.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = fresh.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = fresh.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = fresh.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
 }
 
 func (ctx *GossiperContext) CleanUpGossiperStorage() {
-- 
2.43.0


From 675e126847515451c14bec90c2503da19c9afb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:23 +0000
Subject: [PATCH 12/46] fix: guard the gossiper's statistics like the storage
 they are taken from

Save iterated the storage maps, and handlers appended to the timer list
and set the converge times, without any lock (fatal concurrent map
iteration and map write).
---
 gossiper/Interface.go       | 91 ++++++++++++++++++++++++-------------
 gossiper/gossiper_server.go |  7 ++-
 2 files changed, 65 insertions(+), 33 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 29a1054..8d9fbca 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -32,14 +33,22 @@ func ComputeobjHash(obj definition.Gossip_object) []byte {
 	hash_byte, _ := crypto.GenerateSHA256(tobehashed)
 	return hash_byte
 }
-func countFragments(fragmentMap map[definition.Gossip_ID][]definition.Gossip_object) int {
+func countFragments(fragmentMap *map[definition.Gossip_ID][]definition.Gossip_object, lock *sync.RWMutex) int {
+	lock.RLock()
+	defer lock.RUnlock()
 	count := 0
-	for _, fragments := range fragmentMap {
+	for _, fragments := range *fragmentMap {
 		count += len(fragments)
 	}
 	return count
 }
 
+func countObjects(objectMap *map[definition.Gossip_ID]definition.Gossip_object, lock *sync.RWMutex) int {
+	lock.RLock()
+	defer lock.RUnlock()
+	return len(*objectMap)
+}
+
 func (ctx *GossiperContext) SavePayload(g definition.Gossip_object) {
 	err := g.Verify(ctx.Gossiper_crypto_config)
 	if err != nil {
@@ -80,27 +89,33 @@ func (ctx *GossiperContext) GetREVrequested(gid definition.Gossip_ID) definition
 func (ctx *GossiperContext) Save() {
 	Period, _ := strconv.Atoi(util.GetCurrentPeriod())
 	g_log_entry := Gossiper_log_entry{
-		Period:                 Period,
-		Converge_time:          ctx.Converge_time,
-		Converge_time_init:     ctx.Converge_time_init,
-		Total_traffic_received: ctx.Total_traffic_received,
-		Total_traffic_sent:     ctx.Total_traffic_sent,
-		NUM_STH_INIT:           len(ctx.Gossip_object_storage.STH_INIT),
-		NUM_REV_INIT:           len(ctx.Gossip_object_storage.REV_INIT),
-		NUM_ACC_INIT:           len(ctx.Gossip_object_storage.ACC_INIT),
-		NUM_CON_INIT:           len(ctx.Gossip_object_storage.CON_INIT),
-		NUM_STH_FRAG:           0,
-		NUM_REV_FRAG:           0,
-		NUM_ACC_FRAG:           0,
-		NUM_STH_FULL:           len(ctx.Gossip_object_storage.STH_FULL),
-		NUM_REV_FULL:           len(ctx.Gossip_object_storage.REV_FULL),
-		NUM_ACC_FULL:           len(ctx.Gossip_object_storage.ACC_FULL),
-		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
-		Timerlist:              ctx.Timerlist,
+		Period:       Period,
+		NUM_STH_INIT: countObjects(&ctx.Gossip_object_storage.STH_INIT, &ctx.Gossip_object_storage.STH_INIT_LOCK),
+		NUM_REV_INIT: countObjects(&ctx.Gossip_object_storage.REV_INIT, &ctx.Gossip_object_storage.REV_INIT_LOCK),
+		NUM_ACC_INIT: countObjects(&ctx.Gossip_object_storage.ACC_INIT, &ctx.Gossip_object_storage.ACC_INIT_LOCK),
+		NUM_CON_INIT: countObjects(&ctx.Gossip_object_storage.CON_INIT, &ctx.Gossip_object_storage.CON_INIT_LOCK),
+		NUM_STH_FRAG: 0,
+		NUM_REV_FRAG: 0,
+		NUM_ACC_FRAG: 0,
+		NUM_STH_FULL: countObjects(&ctx.Gossip_object_storage.STH_FULL, &ctx.Gossip_object_storage.STH_FULL_LOCK),
+		NUM_REV_FULL: countObjects(&ctx.Gossip_object_storage.REV_FULL, &ctx.Gossip_object_storage.REV_FULL_LOCK),
+		NUM_ACC_FULL: countObjects(&ctx.Gossip_object_storage.ACC_FULL, &ctx.Gossip_object_storage.ACC_FULL_LOCK),
 	}
-	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
-	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
-	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()
+	g_log_entry.NUM_BLACKLIST_PERM = len(ctx.Gossip_blacklist.BLACKLIST_PERM)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()
+	ctx.Counter1_lock.Lock()
+	g_log_entry.Converge_time = ctx.Converge_time
+	g_log_entry.Converge_time_init = ctx.Converge_time_init
+	g_log_entry.Total_traffic_received = ctx.Total_traffic_received
+	g_log_entry.Timerlist = append([]float64{}, ctx.Timerlist...)
+	ctx.Counter1_lock.Unlock()
+	ctx.Counter2_lock.Lock()
+	g_log_entry.Total_traffic_sent = ctx.Total_traffic_sent
+	ctx.Counter2_lock.Unlock()
+	g_log_entry.NUM_STH_FRAG = countFragments(&ctx.Gossip_object_storage.STH_FRAG, &ctx.Gossip_object_storage.STH_FRAG_LOCK)
+	g_log_entry.NUM_REV_FRAG = countFragments(&ctx.Gossip_object_storage.REV_FRAG, &ctx.Gossip_object_storage.REV_FRAG_LOCK)
+	g_log_entry.NUM_ACC_FRAG = countFragments(&ctx.Gossip_object_storage.ACC_FRAG, &ctx.Gossip_object_storage.ACC_FRAG_LOCK)
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -130,7 +145,9 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	}
 	clock := util.GetCurrentSecond()
 	clock_float, _ := strconv.ParseFloat(clock, 64)
+	ctx.Counter1_lock.Lock()
 	ctx.Timerlist = append(ctx.Timerlist, clock_float)
+	ctx.Counter1_lock.Unlock()
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
@@ -142,8 +159,11 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			now := util.GetCurrentSecond()
+			ctx.Counter1_lock.Lock()
+			ctx.Converge_time_init = now
+			ctx.Counter1_lock.Unlock()
+			fmt.Println(util.BLUE, "INIT Converge time: ", now, util.RESET)
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
@@ -155,8 +175,11 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			now := util.GetCurrentSecond()
+			ctx.Counter1_lock.Lock()
+			ctx.Converge_time_init = now
+			ctx.Counter1_lock.Unlock()
+			fmt.Println(util.BLUE, "INIT Converge time: ", now, util.RESET)
 		}
 	case definition.ACC_INIT:
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Lock()
@@ -168,8 +191,11 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			now := util.GetCurrentSecond()
+			ctx.Counter1_lock.Lock()
+			ctx.Converge_time_init = now
+			ctx.Counter1_lock.Unlock()
+			fmt.Println(util.BLUE, "INIT Converge time: ", now, util.RESET)
 		}
 	case definition.CON_INIT:
 		ctx.Gossip_object_storage.CON_INIT_LOCK.Lock()
@@ -187,8 +213,11 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 			ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Unlock()
 		}
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			now := util.GetCurrentSecond()
+			ctx.Counter1_lock.Lock()
+			ctx.Converge_time_init = now
+			ctx.Counter1_lock.Unlock()
+			fmt.Println(util.BLUE, "INIT Converge time: ", now, util.RESET)
 		}
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
@@ -595,7 +624,7 @@ func (ctx *GossiperContext) IsConvergent() bool {
 	count1 := len(ctx.Gossip_object_storage.REV_FULL)
 	count2 := len(ctx.Gossip_object_storage.STH_FULL)
 	count3 := len(ctx.Gossip_object_storage.ACC_FULL)
-	count4 := len(ctx.Gossip_object_storage.CON_INIT)
+	count4 := countObjects(&ctx.Gossip_object_storage.CON_INIT, &ctx.Gossip_object_storage.CON_INIT_LOCK)
 	if count1+count2+count3+count4 == ctx.Total_Logger+ctx.Total_CA {
 		return true
 	}
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index ad45183..d475972 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -382,8 +382,11 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-		c.Converge_time = util.GetCurrentSecond()
-		fmt.Println(util.BLUE, "Converge time: ", c.Converge_time, util.RESET)
+		now := util.GetCurrentSecond()
+		c.Counter1_lock.Lock()
+		c.Converge_time = now
+		c.Counter1_lock.Unlock()
+		fmt.Println(util.BLUE, "Converge time: ", now, util.RESET)
 	}
 
 	return
-- 
2.43.0


From c031c699075644e319f35752ea7de895268a9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:25 +0000
Subject: [PATCH 13/46] fix: the monitor verifies what it is told to store

Everything posted to the gossip endpoint was stored unverified, so anyone
could put forged STHs, revocations and proofs of misbehaviour into the
client updates (or suppress an accusation with a forged statement).
---
 monitor/monitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..21b11fa 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,7 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
@@ -54,6 +55,13 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 		// processDuplicateObject(c, gossip_obj, stored_obj)
 		return
 	} else {
+		// the endpoint is open to everyone: what we store ends up in client updates
+		err = gossip_obj.Verify(c.Monitor_crypto_config)
+		if err != nil {
+			fmt.Println(util.RED, "received invalid", definition.TypeString(gossip_obj.Type), util.RESET)
+			http.Error(w, err.Error(), http.StatusOK)
+			return
+		}
 		fmt.Println("received new, valid", definition.TypeString(gossip_obj.Type), "from gossiper.")
 		switch gossip_obj.Type {
 		case definition.STH_INIT, definition.REV_INIT:
-- 
2.43.0


From fbac7462e3282b8df56996e29c263c92f117be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:34 +0000
Subject: [PATCH 14/46] fix: find conflict proofs in the monitor whatever their
 period

They are stored under the period in which they were made but were looked
up under period "0": a proven liar was still queried and accused, and
its STH or revocation stayed in the client update.
---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 21b11fa..949d878 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -388,12 +388,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPoM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..c048f8c 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,26 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// HasConflictPoM tells whether there is a conflict proof against the entity, of any period
+func (c *MonitorContext) HasConflictPoM(Entity_URL string) bool {
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == Entity_URL {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From 9e097b596b41c678e2ae52ed071dc90a506bcd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 15/46] fix: answer update requests for unknown periods with an
 error

The handler dereferenced the missing update (and went on after a request
it could not parse).
---
 monitor/client-update-monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..08e94a5 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -45,10 +45,15 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
 	msg, _ := json.Marshal(ctupdate)
 	json.NewEncoder(w).Encode(msg)
-- 
2.43.0


From 4d943a82a617cba6df7e9c5453dc5f90a8895744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:38 +0000
Subject: [PATCH 16/46] fix: a monitor takes only the queried entity's current
 statement as an answer

A valid object of another type, entity or period was passed on and the
entity, which had not answered for this period, was not accused.
---
 monitor/monitor.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 949d878..98ea99a 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -3,6 +3,7 @@ package monitor
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"log"
@@ -166,6 +167,9 @@ func QueryLoggers(c *MonitorContext) {
 						Wait_then_accuse(c, loggerURL, "logger")
 					} else {
 						err3 := STH.Verify(c.Monitor_crypto_config)
+						if err3 == nil {
+							err3 = checkReply(STH, definition.STH_INIT, loggerURL)
+						}
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
@@ -271,6 +275,9 @@ func QueryAuthorities(c *MonitorContext) {
 				}
 
 				err4 := REV.Verify(c.Monitor_crypto_config)
+				if err4 == nil {
+					err4 = checkReply(REV, definition.REV_INIT, CAURL)
+				}
 				if err4 != nil {
 					log.Println(util.RED+"Revocation information signature verification failed", err4.Error(), util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
@@ -291,6 +298,15 @@ func QueryAuthorities(c *MonitorContext) {
 	}
 }
 
+// checkReply checks that a valid object is what was asked for: the statement of the
+// queried entity for the current period
+func checkReply(g definition.Gossip_object, Type string, Entity_URL string) error {
+	if g.Type != Type || g.Signer != Entity_URL || g.Period != util.GetCurrentPeriod() {
+		return errors.New("unexpected " + definition.TypeString(g.Type) + " of " + g.Signer + " for period " + g.Period)
+	}
+	return nil
+}
+
 // This function accuses the entity if the domain name is provided
 // It is called when the gossip object received is not valid, or the monitor didn't get response when querying the logger or the CA
 // Accused = Domain name of the accused entity (logger etc.)
-- 
2.43.0


From c5b4a0aeb9118922e79c47df55d42d0dbec374f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:40 +0000
Subject: [PATCH 17/46] fix: use the monitor's locks wherever its storage is
 read or wiped

Several maps were read, iterated, written or wiped without the lock the
request handlers take (fatal concurrent map access).
---
 monitor/monitor.go | 20 +++++++++++++++++---
 monitor/types.go   | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 98ea99a..7348e0a 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -347,15 +347,16 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
-			_, ok = (*c.Storage_TEMP)[GID]
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
-			_, ok = (*c.Storage_TEMP)[GID]
 		}
+		c.TEMP_lock.RLock()
+		_, ok = (*c.Storage_TEMP)[GID]
+		c.TEMP_lock.RUnlock()
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
 		}
@@ -400,7 +401,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, ok := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if ok {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -434,18 +438,26 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -511,6 +523,8 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
+	ctx.CRV_lock.Lock()
+	defer ctx.CRV_lock.Unlock()
 	CRV_old := ctx.Storage_CRV[CAID]
 	if CRV_old == nil {
 		CRV_old = dCRV
diff --git a/monitor/types.go b/monitor/types.go
index c048f8c..2bf20b0 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -75,12 +75,20 @@ type Monitor_public_config struct {
 func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	switch objtype {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.RLock()
+		defer c.CONFLICT_POM_lock.RUnlock()
 		return len(*c.Storage_CONFLICT_POM)
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.RLock()
+		defer c.ACCUSATION_POM_lock.RUnlock()
 		return len(*c.Storage_ACCUSATION_POM)
 	case definition.STH_FULL:
+		c.STH_FULL_lock.RLock()
+		defer c.STH_FULL_lock.RUnlock()
 		return len(*c.Storage_STH_FULL)
 	case definition.REV_FULL:
+		c.REV_FULL_lock.RLock()
+		defer c.REV_FULL_lock.RUnlock()
 		return len(*c.Storage_REV_FULL)
 	}
 	return 0
@@ -88,6 +96,8 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 
 // HasConflictPoM tells whether there is a conflict proof against the entity, of any period
 func (c *MonitorContext) HasConflictPoM(Entity_URL string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
 	for key := range *c.Storage_CONFLICT_POM {
 		if key.Entity_URL == Entity_URL {
 			return true
@@ -97,18 +107,22 @@ func (c *MonitorContext) HasConflictPoM(Entity_URL string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPoM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -121,11 +135,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -219,15 +235,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -249,50 +265,60 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key].Union(&DCRV)
-				c.CRV_lock.Unlock()
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
+	c.CONFLICT_POM_lock.Lock()
 	for key := range *c.Storage_CONFLICT_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_CONFLICT_POM_DELTA, key)
 		}
 	}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
 	for key := range *c.Storage_ACCUSATION_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 		}
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 13fe6047640120f4a289c1dc146f22536a5e472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:15 +0000
Subject: [PATCH 18/46] fix: take over a client update as a whole or not at all

HandleUpdate returned with its locks held when an object was rejected, so the
next update or lookup hung; it kept what had been applied before the rejected
object, dropped revocations announced after the first period (the result of
Union was discarded), accepted any verifying object in any list (a statement
signed by its logger alone as STH, an STH as a proof of misbehaviour), and
checked the SRH against the previous CRV and any key.
---
 client/client.go | 113 +++++++++++++++++++++++------------------------
 1 file changed, 56 insertions(+), 57 deletions(-)

diff --git a/client/client.go b/client/client.go
index f8054fa..4868ac2 100644
--- a/client/client.go
+++ b/client/client.go
@@ -99,13 +99,17 @@ func fetch(url string) ([]byte, error) {
 }
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
-	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	return ctx.verifySRH(srh, ctx.CRV_database[CAID], dCRV, CAID, Period)
+}
+
+func (ctx *ClientContext) verifySRH(srh string, CRV_old *bitset.BitSet, dCRV *bitset.BitSet, CAID string, Period string) bool {
+	// the CA signs the CRV this delta leads to
+	CRV_new := dCRV
+	if CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -116,8 +120,13 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	ca_publickey, ok := ctx.Crypto.SignPublicMap[rsasig.ID]
+	if !ok || rsasig.ID.String() != CAID {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
-	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
 	if err != nil {
 		fmt.Println("Fail to verify the signature on the SRH")
@@ -127,42 +136,52 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	return true
 }
 
+// verifyAs verifies the objects, which all have to be of the given type
+func (ctx *ClientContext) verifyAs(Type string, objects []definition.Gossip_object) bool {
+	for _, g := range objects {
+		if g.Type != Type || g.Verify(ctx.Crypto) != nil {
+			fmt.Println(definition.TypeString(Type), "verification failed")
+			return false
+		}
+	}
+	return true
+}
+
+// HandleUpdate takes over an update as a whole, or, when any part of it is not acceptable, nothing of it
 func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) bool {
 	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
+	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
+	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
+	if verify && !(ctx.verifyAs(definition.REV_FULL, update.REVs) && ctx.verifyAs(definition.STH_FULL, update.STHs) &&
+		ctx.verifyAs(definition.ACC_FULL, update.POM_ACCs) && ctx.verifyAs(definition.CON_INIT, update.POM_CONs)) {
+		return false
+	}
+	CRVs := make(map[string]*bitset.BitSet)
 	for _, rev := range update.REVs {
-		if verify {
-			err := rev.Verify(ctx.Crypto)
-			if err != nil {
-				fmt.Println("REV verification failed")
-				return false
-			}
-		}
 		SRH, DCRV := Get_SRH_and_DCRV(rev)
 		key := rev.Payload[0]
-		//verif REV_FULL
+		// look for CRV first
+		CRV_old, ok := CRVs[key]
+		if !ok {
+			CRV_old = ctx.CRV_database[key]
+		}
 		//verify SRH
-		if !ctx.VerifySRH(SRH, &DCRV, key, rev.Period) {
+		if !ctx.verifySRH(SRH, CRV_old, &DCRV, key, rev.Period) {
 			fmt.Println("SRH verification failed")
 			return false
 		}
 		//Update CRV
-		// look for CRV first
-		if _, ok := ctx.CRV_database[key]; !ok {
-			ctx.CRV_database[key] = &DCRV
+		if CRV_old == nil {
+			CRVs[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			CRVs[key] = CRV_old.Union(&DCRV)
 		}
 	}
-	ctx.CRV_DB_RWLock.Unlock()
-	ctx.STH_DB_RWLock.Lock()
+	STHs := make(map[string]string)
 	for _, sth := range update.STHs {
-		if verify {
-			err := sth.Verify(ctx.Crypto)
-			if err != nil {
-				fmt.Println("sth verification failed")
-				return false
-			}
-		}
 		var STH_def definition.STH
 		payload1, _ := hex.DecodeString(sth.Payload[1])
 		err := json.Unmarshal(payload1, &STH_def)
@@ -170,40 +189,20 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			fmt.Println("sth unmarshal failed")
 			return false
 		}
-		newrecord := STH_def.RootHash
-		key := sth.Payload[0] + "@" + sth.Period
-		//verify STH_FULL
-		//Update STH
-		// look for STH first
-		ctx.STH_database[key] = newrecord
+		STHs[sth.Payload[0]+"@"+sth.Period] = STH_def.RootHash
+	}
+	for key, CRV := range CRVs {
+		ctx.CRV_database[key] = CRV
+	}
+	for key, roothash := range STHs {
+		ctx.STH_database[key] = roothash
 	}
-	ctx.STH_DB_RWLock.Unlock()
-	ctx.POM_DB_RWLock.Lock()
 	for _, pom := range update.POM_ACCs {
-		if verify {
-			err := pom.Verify(ctx.Crypto)
-			if err != nil {
-				fmt.Println("pom verification failed")
-				return false
-			}
-		}
-		//Update POM
-		key := pom.Payload[0]
-		ctx.POM_database[key] = pom
+		ctx.POM_database[pom.Payload[0]] = pom
 	}
 	for _, pom := range update.POM_CONs {
-		if verify {
-			err := pom.Verify(ctx.Crypto)
-			if err != nil {
-				fmt.Println("pom verification failed")
-				return false
-			}
-		}
-		//Update POM
-		key := pom.Payload[0]
-		ctx.POM_database[key] = pom
+		ctx.POM_database[pom.Payload[0]] = pom
 	}
-	ctx.POM_DB_RWLock.Unlock()
 	return true
 }
 
-- 
2.43.0


From 131a0536933da9542d9bbc40be9a626669f8f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 19/46] fix: a certificate check needs revocation information
 of the issuer and finds blacklisted loggers

VerifyCTngextension dereferenced the missing CRV of an issuer the client has no
revocation information about, looked blacklisted loggers up by the signer of the
embedded STH only (empty for a threshold-signed one), and read the databases
without their locks.
---
 client/client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 4868ac2..a2696f8 100644
--- a/client/client.go
+++ b/client/client.go
@@ -207,6 +207,12 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
 	var total int
@@ -216,7 +222,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	Precert := util.ParseTBSCertificate(cert)
 	for _, loggerinfo := range CTngext.LoggerInformation {
 		// if logger is blacklisted already
-		if _, ok := ctx.POM_database[loggerinfo.STH.Signer]; ok {
+		if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {
 			fmt.Println("Logger is blacklisted")
 			faulty_logger++
 		} else {
@@ -262,6 +268,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No revocation information from the issuer")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From c61f6165b1eee274d1690ee91289bf232984dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 20/46] fix: a restarted client still knows the proofs of
 misbehaviour it was shown

InitializeClientContext never loaded the PoM database back, and unreadable STH
and PoM databases went unnoticed because the error was dropped.
---
 client/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/types.go b/client/types.go
index f16cb50..0d4ca44 100644
--- a/client/types.go
+++ b/client/types.go
@@ -64,7 +64,7 @@ func LoadSTHDatabase(ctx *ClientContext) {
 		ctx.STH_database = make(map[string]string)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.STH_database)
+	err = json.Unmarshal(databyte, &ctx.STH_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -94,7 +94,7 @@ func LoadPoMdatabase(ctx *ClientContext) {
 		ctx.POM_database = make(map[string]definition.Gossip_object)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.POM_database)
+	err = json.Unmarshal(databyte, &ctx.POM_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -131,5 +131,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 4da32b8e6e5a582b07cb5930b38242d1d3850f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:51 +0000
Subject: [PATCH 21/46] fix: a crash while a data file is written leaves the
 previous content in place

WriteData truncated the file before writing it; a client or monitor that died in
between could not start again from its storage.
---
 util/IO.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/util/IO.go b/util/IO.go
index d6c304c..2fb22db 100644
--- a/util/IO.go
+++ b/util/IO.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"os"
-	"strings"
 )
 
 //This read function reads from a Json file as a byte array and returns it.
@@ -35,26 +34,18 @@ func ReadByte(filename string) ([]byte, error) {
 // Writes arbitrary data as a JSON File.
 // If the file does not exist, it will be created.
 func WriteData(filename string, data interface{}) error {
-	jsonFile, err := os.Open(filename)
-	// if we os.Open returns an error then handle it
-	if err != nil && strings.Contains(err.Error(), "no such file or directory") {
-		jsonFile, err = os.Create(filename)
-	}
-	if err != nil {
-		return err
-	}
-	// defer the closing of our jsonFile so that we can parse it later on
-	defer jsonFile.Close()
-	//write to the corresponding file
 	file, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
 		return err
 	}
-	err = os.WriteFile(filename, file, 0644)
+	// write a new file and move it into place, so that a crash while writing
+	// leaves the old content rather than a part of the new one
+	tmpname := filename + ".tmp"
+	err = os.WriteFile(tmpname, file, 0644)
 	if err != nil {
 		return err
 	}
-	return nil
+	return os.Rename(tmpname, filename)
 }
 
 func CreateFile(path string) {
-- 
2.43.0


From 21d89245770c5aefba60e3b0b8ab521b76cb4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:51 +0000
Subject: [PATCH 22/46] fix: revocations after the first period reach the
 revocation delta

The CRV of the last period and the current one were the same bit vector after the
first update, so every later delta was empty.
---
 CA/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CA/server.go b/CA/server.go
index d2d931b..10373dd 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -420,7 +420,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
-- 
2.43.0


From 19cf9fb537b6b9826385955bfedb1feb1fbca533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:51 +0000
Subject: [PATCH 23/46] fix: a monitor follows the revocations a CA announces
 period by period

The result of Union was discarded, so the CRV stayed what the first period made
it; and the SRH, which signs the CRV a delta leads to, was compared with the CRV
before the delta: a CA revoking anything after its first period was accused.
---
 monitor/monitor.go | 20 +++++++++++++-------
 monitor/types.go   |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7348e0a..5cc9b66 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -525,24 +525,30 @@ func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID strin
 	// find the corresponding CRV
 	ctx.CRV_lock.Lock()
 	defer ctx.CRV_lock.Unlock()
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the CA signs the CRV this delta leads to
+	CRV_new := dCRV
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	ca_publickey, ok := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
+	if !ok || rsasig.ID.String() != CAID {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
-	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
 	if err != nil {
 		fmt.Println("Fail to verify the signature on the SRH: ", err)
diff --git a/monitor/types.go b/monitor/types.go
index 2bf20b0..e48492e 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -270,7 +270,7 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 			if _, ok := c.Storage_CRV[key]; !ok {
 				c.Storage_CRV[key] = &DCRV
 			} else {
-				c.Storage_CRV[key].Union(&DCRV)
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
-- 
2.43.0


From 1710a21274e0a590f1921d394f6c921f23b097ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:11 +0000
Subject: [PATCH 24/46] fix: the second statement of a split-world CA passes
 the SRH check

It is only noticed as a conflict when the monitor it is shown to does not reject
it as malformed.
---
 CA/CRV.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..3947061 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -114,6 +114,9 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 		if err != nil {
 			panic(err)
 		}
+		// the SRH has to fit the CRV this delta leads to
+		hashmsg, _ = c.CRV.CRV_current.Union(&m2).MarshalBinary()
+		hash, _ = crypto.GenerateSHA256(hashmsg)
 	}
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
-- 
2.43.0


From 707b493c6c8ffd040ca94f9e9c0ae049ac03cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:46 +0000
Subject: [PATCH 25/46] fix: every proof of misbehaviour reaches one client
 update

Proofs that arrived after the update of their period had been written were wiped
before the next one was generated.
---
 monitor/monitor.go |  1 +
 monitor/types.go   | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 5cc9b66..4a39489 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -496,6 +496,7 @@ func PeriodicTasks(c *MonitorContext) {
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
 		c.SaveStorage(PeriodIO, update)
+		c.WipeDelta(update)
 	}
 	time.AfterFunc(time.Duration(c.Monitor_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/monitor/types.go b/monitor/types.go
index e48492e..ea01a4c 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -305,21 +305,22 @@ func (c *MonitorContext) WipeStorage() {
 		}
 	}
 	c.REV_FULL_lock.Unlock()
+	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
+}
+
+// WipeDelta forgets the new PoMs the update tells the clients about. Those that
+// arrived since then, in whatever period they were made, are for the next update.
+func (c *MonitorContext) WipeDelta(update ClientUpdate) {
 	c.CONFLICT_POM_lock.Lock()
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
+	for _, pom := range update.POM_CONs {
+		delete(*c.Storage_CONFLICT_POM_DELTA, pom.GetID())
 	}
 	c.CONFLICT_POM_lock.Unlock()
 	c.ACCUSATION_POM_lock.Lock()
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
+	for _, pom := range update.POM_ACCs {
+		delete(*c.Storage_ACCUSATION_POM_DELTA, pom.GetID())
 	}
 	c.ACCUSATION_POM_lock.Unlock()
-	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
 func (c *MonitorContext) InitializeMonitorStorage(filepath string) {
-- 
2.43.0


From 115ecab8893a280d2378c70f41bf2a5fad168c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 26/46] fix: a logger publishes an STH for a period with less
 than two precertificates

The Merkle tree library builds no tree of fewer than two leaves, so the logger
died on the missing tree.
---
 Logger/server.go     |  4 +++-
 crypto/MerkleTree.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index 2ca6079..d8e1aeb 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -227,7 +227,9 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
 		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 2332d0b..4eccc08 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -53,6 +53,20 @@ func GenerateDataBlocks(certs []x509.Certificate) (dataBlocks []merkletree.DataB
 }
 
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
+	// the library builds trees of two leaves and more: the root of a single leaf is
+	// the hash of that leaf, the root of no leaves the hash of nothing
+	if len(blocks) < 2 {
+		tree = &merkletree.MerkleTree{NumLeaves: len(blocks), Proofs: make([]*merkletree.Proof, len(blocks))}
+		var leaf []byte
+		if len(blocks) == 1 {
+			if leaf, error = blocks[0].Serialize(); error != nil {
+				return nil, error
+			}
+			tree.Proofs[0] = new(merkletree.Proof)
+		}
+		tree.Root, error = GenerateSHA256(leaf)
+		return
+	}
 	tree, error = merkletree.New(nil, blocks)
 	return
 }
-- 
2.43.0


From 11e83125270d554a0cfd04d446853a7e6ffd5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:25 +0000
Subject: [PATCH 27/46] fix: map the CA list of a logger to IP addresses as
 well

---
 Gen/IPmapping.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..f58fa38 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -293,6 +293,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 	new_dest_1 := logger_ip + semicolon_and_port_1
 	logger_priv_config.Signer = new_dest_1
 	fmt.Println("logger_priv_config.Signer: ", logger_priv_config.Signer)
+	// iterate over CAlist
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//take the data out and slice out the last 5 characters
+		semicolon_and_port := ca[len(ca)-5:]
+		new_dest := ip_json_config.CA_ip_map[index] + semicolon_and_port
+		logger_priv_config.CAlist[index] = new_dest
+	}
 	// iterate over MonitorList
 	for index, monitor := range logger_priv_config.Monitorlist {
 		//change localhost to actual IP
-- 
2.43.0


From 7cf82ed7805fa3060be7465c4a3ae95e727be9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:25 +0000
Subject: [PATCH 28/46] fix: a logger takes precertificates of its accredited
 CAs only and survives malformed ones

Whatever parsed as a certificate went into the tree, and whatever did not ended
the process.
---
 Logger/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index d8e1aeb..2b293b8 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -11,7 +11,6 @@ import (
 	"strconv"
 	"time"
 
-	"github.com/jik18001/CTngV2/CA"
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -118,7 +117,16 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// Parse the DER-encoded certificate
-	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	cert_ca, err = x509.ParseCertificate(body)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// only log what an accredited CA has signed
+	if !Verifyprecert(*cert_ca, LoggerContext{Logger_private_config: c.Logger_private_config, Logger_crypto_config: c.Logger_crypto_config}) {
+		http.Error(w, "not signed by an accredited CA", http.StatusForbidden)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From 59cc3a6536c784c5f5001dadbef7faf7a0b831dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:25 +0000
Subject: [PATCH 29/46] fix: each logger in a CA's list gets its own IP address

The index of the CA was used, so all loggers got one address and a CA beyond the
number of loggers could not be mapped at all.
---
 Gen/IPmapping.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index f58fa38..cedc44e 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -263,7 +263,7 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[index] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
-- 
2.43.0


From 1df9c962a351cffe732abd25fbdca71770058423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:25 +0000
Subject: [PATCH 30/46] fix: survive an unreachable CA or logger

The response of a failed request is nil.
---
 CA/server.go     | 3 ++-
 Logger/server.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 10373dd..2dba748 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -271,8 +271,9 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 // send a signed precert to all loggers
diff --git a/Logger/server.go b/Logger/server.go
index 2b293b8..d48b01e 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -162,8 +162,9 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
-- 
2.43.0


From 4f5fd484456b73c87d8a16822174e73c6f754b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 31/46] fix: a logger includes every precertificate it accepted
 in one of its trees

Precertificates accepted while the STH and the inclusion proofs were sent out were
dropped with the old pool. The pool and the STH storage are now only used under
their locks.
---
 Logger/server.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index d48b01e..fd27c58 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -229,37 +229,49 @@ func PeriodicTask(ctx *LoggerContext) {
 		if periodint < 10 {
 			period = "0" + period
 		}
+		// take the cert pool of this period, what arrives from now on is for the next one
+		ctx.CertPool_lock.Lock()
+		pool := ctx.CurrentPrecertPool
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		ctx.CertPool_lock.Unlock()
+		periodctx := LoggerContext{
+			Client:                ctx.Client,
+			Logger_private_config: ctx.Logger_private_config,
+			PrivateKey:            ctx.PrivateKey,
+			CurrentPrecertPool:    pool,
+			StoragePath:           ctx.StoragePath,
+		}
 		// update STH
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		certlist := pool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
-		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
+		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, periodctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := pool.GetCerts()
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		}
 		fmt.Println("len of certlist2: ", len(certlist2))
-		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
+		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, periodctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		Send_POIs_to_CAs(&periodctx, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 5017482d787243cc06a3a592e3caec60a34547b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 32/46] fix: two precertificates with one key do not stop the
 inclusion proofs of the others

The proof of the second one was checked against the first, and the failure ended
the delivery of all remaining proofs.
---
 Logger/server.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index fd27c58..1c912d5 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -168,16 +168,24 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
+	certs := make(map[string][]x509.Certificate)
+	for _, cert := range c.CurrentPrecertPool.GetCerts() {
+		key := cert.Issuer.CommonName + string(cert.SubjectKeyId)
+		certs[key] = append(certs[key], cert)
+	}
 	//iterate over the POIs
 	for i := 0; i < len(POIs); i++ {
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
-			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
-			if err != nil || pass == false {
-				fmt.Println("POI verification failed: ", err)
-				return
+			verified := false
+			for _, precert := range certs[POIs[i].Issuer+string(POIs[i].SubjectKeyId)] {
+				pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, precert)
+				verified = verified || (err == nil && pass)
+			}
+			if !verified {
+				fmt.Println("POI verification failed")
+				continue
 			}
 			// Get the Issuer CA
 			ca := POIs[i].Issuer
-- 
2.43.0


From 7f2b05170e2d60ad79e1bea97980e19f1cb13cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 33/46] fix: precertificates of different CAs for one subject
 are different certificates

The pools compare encodings, which precertificates do not carry, so the second
one was taken for a duplicate and never logged.
---
 crypto/certpool.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..aa8df1a 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -4,6 +4,7 @@ package crypto
 // The original file is licensed under the BSD 3-Clause License
 
 import (
+	"bytes"
 	//"CTng/gossip"
 	"encoding/pem"
 	"fmt"
@@ -71,7 +72,7 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		if sameCert(s.certs[c], cert) {
 			return true
 		}
 	}
@@ -79,6 +80,19 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 	return false
 }
 
+// sameCert compares certificates. Precertificates come without their encoding, so
+// that Equal alone would take all those of one subject for the same.
+func sameCert(a *x509.Certificate, b *x509.Certificate) bool {
+	if !a.Equal(b) {
+		return false
+	}
+	if len(a.Raw) != 0 || a.SerialNumber == nil || b.SerialNumber == nil {
+		return true
+	}
+	return a.SerialNumber.Cmp(b.SerialNumber) == 0 && a.Issuer.CommonName == b.Issuer.CommonName &&
+		bytes.Equal(a.SubjectKeyId, b.SubjectKeyId)
+}
+
 // AddCert adds a certificate to a pool.
 func (s *CertPool) AddCert(cert *x509.Certificate) {
 	if cert == nil {
-- 
2.43.0


From 31b3ceb3c714116ff363ed42297d29230ac49924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:46 +0000
Subject: [PATCH 34/46] fix: the CA handles statements and inclusion proofs of
 several loggers at once

The logger information of a certificate was read, extended and written back
without the lock, so concurrent proofs overwrote each other; the storages were
read without their locks; malformed and unverifiable input panicked; an inclusion
proof without STH was embedded with an empty one.
---
 CA/server.go | 67 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 2dba748..c23af5a 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -153,19 +153,22 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	if periodnum < 10 {
 		Period = "0" + strconv.Itoa(periodnum)
 	}
+	c.Request_Count_lock.Lock()
+	rev, fake_rev, online := c.REV_storage[Period], c.REV_storage_fake[Period], c.OnlineDuration
+	c.Request_Count_lock.Unlock()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
-		json.NewEncoder(w).Encode(c.REV_storage[Period])
+		json.NewEncoder(w).Encode(rev)
 		return
 	case 1:
 		//split-world CA
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+		if req_count%c.MisbehaviorInterval == 0 && online == 1 {
+			json.NewEncoder(w).Encode(fake_rev)
 			fmt.Println("Fake REV sent")
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			fmt.Println("Real REV sent")
 			return
 		}
@@ -174,35 +177,35 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		return
 	case 3:
 		//sometimes unresponsive CA
-		if req_count%c.MisbehaviorInterval == 0 || c.OnlineDuration == 1 {
+		if req_count%c.MisbehaviorInterval == 0 || online == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	case 4:
 		// Split-world CA on second round since requested by monitor, behave normally on other rounds
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
-			json.NewEncoder(w).Encode(c.REV_storage_fake[Period])
+		if req_count%c.MisbehaviorInterval == 0 && online == 1 {
+			json.NewEncoder(w).Encode(fake_rev)
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 		}
 		return
 	case 5:
 		// always unresponsive CA on second round since requested by monitor, behave normally on other rounds
-		if c.OnlineDuration == 1 {
+		if online == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 
 	case 6:
 		// sometimes unreponsive on second round since requested by monitor, behave normally on other rounds
-		if req_count%c.MisbehaviorInterval == 0 && c.OnlineDuration == 1 {
+		if req_count%c.MisbehaviorInterval == 0 && online == 1 {
 			return
 		} else {
-			json.NewEncoder(w).Encode(c.REV_storage[Period])
+			json.NewEncoder(w).Encode(rev)
 			return
 		}
 	}
@@ -216,13 +219,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil {
-		panic(err)
+	if err != nil || gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "invalid STH", http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -239,12 +244,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "no STH of this logger", http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -252,13 +264,14 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	// the loggers send their POIs at the same time: read and update under the lock
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
@@ -293,6 +306,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
@@ -301,6 +316,8 @@ func wipeSTHstorage(c *CAContext) {
 func SignAllCerts(c *CAContext) []*x509.Certificate {
 	root := c.Rootcert
 	priv := c.CA_crypto_config.SignSecretKey
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	certs := c.CurrentCertificatePool.GetCertList()
 	tbscerts := UpdateAllforSigning(certs)
 	var signed_certs []*x509.Certificate
@@ -365,7 +382,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -373,7 +392,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -422,9 +443,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -435,7 +458,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From c886b4063b2a75359db9a3d818a6b42f64e50fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:46 +0000
Subject: [PATCH 35/46] fix: the CA embeds only inclusion proofs that verify

---
 CA/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index c23af5a..abd102a 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -269,6 +269,15 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
+		// only the first proof of a logger is embedded: anyone can send us one
+		roothash, err := definition.ExtractRootHash(sth)
+		if err == nil {
+			ok, err = crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+		}
+		if err != nil || !ok {
+			http.Error(w, "invalid POI", http.StatusBadRequest)
+			return
+		}
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-- 
2.43.0


From 450ffe022ee9d17f30965c11850b952cf8831134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:26 +0000
Subject: [PATCH 36/46] fix: a gossiper signs one statement of an entity for a
 period only

The storage is wiped before the period is over, and with it what the gossiper
had signed. A CA or logger could then have a second, different statement for
the same period signed by the same gossipers: two threshold signed objects,
each shown to a part of the clients.
---
 gossiper/gen.go             | 29 +++++++++++++++++++++++++++++
 gossiper/gossiper_server.go |  4 ++--
 gossiper/types.go           |  8 ++++++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/gossiper/gen.go b/gossiper/gen.go
index ea70667..2e0f90f 100644
--- a/gossiper/gen.go
+++ b/gossiper/gen.go
@@ -2,6 +2,7 @@ package gossiper
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -27,6 +28,34 @@ func (ctx *GossiperContext) Generate_Gossip_Object_FRAG(g definition.Gossip_obje
 	return g
 }
 
+// Period labels repeat every hour: a statement is remembered for half of that.
+const signed_statement_lifetime = 30 * time.Minute
+
+// MaySign tells whether this gossiper may sign the statement, and remembers it as signed if so:
+// it signs at most one statement of an entity for a period, also after the storage was wiped.
+func (ctx *GossiperContext) MaySign(g definition.Gossip_object) bool {
+	ctx.Signed.Lock.Lock()
+	defer ctx.Signed.Lock.Unlock()
+	if ctx.Signed.Payloads == nil {
+		ctx.Signed.Payloads = make(map[definition.Gossip_ID][3]string)
+		ctx.Signed.Times = make(map[definition.Gossip_ID]time.Time)
+	}
+	now := time.Now()
+	for id, signed := range ctx.Signed.Times {
+		if now.Sub(signed) >= signed_statement_lifetime {
+			delete(ctx.Signed.Payloads, id)
+			delete(ctx.Signed.Times, id)
+		}
+	}
+	id := g.GetID()
+	if payload, ok := ctx.Signed.Payloads[id]; ok {
+		return payload == g.Payload
+	}
+	ctx.Signed.Payloads[id] = g.Payload
+	ctx.Signed.Times[id] = now
+	return true
+}
+
 func (ctx *GossiperContext) Remove_Payload(g definition.Gossip_object) definition.Gossip_object {
 	g.Payload[1] = ""
 	g.Payload[2] = ""
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index d475972..9f8a1df 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -239,7 +239,7 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	c.Send_to_Monitor(gossip_obj)
 	// wait and sign the object
 	f := func() {
-		if c.InBlacklist(gossip_obj.Payload[0]) {
+		if c.InBlacklist(gossip_obj.Payload[0]) || !c.MaySign(gossip_obj) {
 			return
 		}
 		STH_FRAG := c.Generate_Gossip_Object_FRAG(gossip_obj)
@@ -279,7 +279,7 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	c.Send_to_Monitor(gossip_obj)
 	// wait and sign the object
 	f := func() {
-		if c.InBlacklist(gossip_obj.Payload[0]) {
+		if c.InBlacklist(gossip_obj.Payload[0]) || !c.MaySign(gossip_obj) {
 			return
 		}
 		REV_FRAG := c.Generate_Gossip_Object_FRAG(gossip_obj)
diff --git a/gossiper/types.go b/gossiper/types.go
index ab76d05..ea6d1a4 100644
--- a/gossiper/types.go
+++ b/gossiper/types.go
@@ -55,6 +55,13 @@ type Gossip_blacklist struct {
 	BLACKLIST_PERM_LOCK sync.RWMutex
 }
 
+// The statements this gossiper signed; they outlive the storage of the period.
+type Signed_statements struct {
+	Payloads map[definition.Gossip_ID][3]string
+	Times    map[definition.Gossip_ID]time.Time
+	Lock     sync.Mutex
+}
+
 type GossiperContext struct {
 	Gossiper_private_config *Gossiper_private_config
 	Gossiper_public_config  *Gossiper_public_config
@@ -62,6 +69,7 @@ type GossiperContext struct {
 	// Storage
 	Gossip_object_storage *Gossip_object_storage
 	Gossip_blacklist      *Gossip_blacklist
+	Signed                Signed_statements
 	Gossiper_log          *Gossiper_log
 	Converge_time         string
 	Converge_time_init    string
-- 
2.43.0


From da84b3048418019803c484e467af63f5d6cc739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:39 +0000
Subject: [PATCH 37/46] fix: a storage wipe while a fragment completes does not
 crash the gossiper

---
 gossiper/gossiper_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 9f8a1df..cca3619 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -358,6 +358,10 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 				itemlist = append(itemlist, item)
 			}
 		}
+		if len(itemlist) < c.Gossiper_crypto_config.Threshold {
+			// the storage was wiped meanwhile
+			return
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From 1f21b78ead6a095ecd8c73eab821ec2ce01a66b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 38/46] fix: map each logger in a CA's list to that logger's IP
 address

---
 Gen/IPmapping.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index cedc44e..05cd890 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		//index should be the last 3 characters of the port number (ignore leading 0)
+		sindex, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[index] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[sindex] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
-- 
2.43.0


From a905762b197f905e7c84ded6e90d277a02aad8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 39/46] fix: map a gossiper's owner to the monitor's IP address

---
 Gen/IPmapping.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 05cd890..4633b76 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
-- 
2.43.0


From 11d7562d3b4b54cf1d23078d8ff487b72c288344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 40/46] fix: create the configuration directories under
 config_path

---
 Gen/Gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index ae4f649..c2d6679 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -325,7 +325,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate CA crypto config map
 	ca_crypto_config_map = GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")
 	// Create CA directory
-	os.Mkdir("ca_testconfig", 0777)
+	os.MkdirAll(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
 	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
 	// Generate Logger private config map
@@ -333,7 +333,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Logger crypto config map
 	logger_crypto_config_map = GenerateCryptoconfig_map(Total, num_logger, Threshold, "Logger")
 	// Create Logger directory
-	os.Mkdir("logger_testconfig", 0777)
+	os.MkdirAll(config_path+"logger_testconfig", 0777)
 	// write all CA public config, private config, crypto config to file
 	for i := 0; i < num_ca; i++ {
 		// create a new folder for each CA if not exist
@@ -373,7 +373,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
-	os.Mkdir("monitor_testconfig", 0777)
+	os.MkdirAll(config_path+"monitor_testconfig", 0777)
 	// write all Monitor public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Monitor
@@ -399,7 +399,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-	os.Mkdir("gossiper_testconfig", 0777)
+	os.MkdirAll(config_path+"gossiper_testconfig", 0777)
 	// write all Gossiper public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Gossiper
-- 
2.43.0


From 4b375cf18287046526b98834206ac83d9770d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:25 +0000
Subject: [PATCH 41/46] fix: a revocation vector with a false length does not
 crash monitors and clients

---
 client/parser.go |  2 +-
 monitor/types.go |  2 +-
 util/helpers.go  | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/client/parser.go b/client/parser.go
index a041fbe..43549fe 100644
--- a/client/parser.go
+++ b/client/parser.go
@@ -21,7 +21,7 @@ func Get_SRH_and_DCRV(rev definition.Gossip_object) (string, bitset.BitSet) {
 	var newDCRV bitset.BitSet
 	// decompress Delta_CRV
 	decompressed_DCRV, _ := util.DecompressData(revocation.Delta_CRV)
-	err = newDCRV.UnmarshalBinary(decompressed_DCRV)
+	err = util.UnmarshalBitset(&newDCRV, decompressed_DCRV)
 	if err != nil {
 		fmt.Println(err)
 	}
diff --git a/monitor/types.go b/monitor/types.go
index ea01a4c..f7c5423 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -397,7 +397,7 @@ func Get_SRH_and_DCRV(rev definition.Gossip_object) (string, bitset.BitSet) {
 	var newDCRV bitset.BitSet
 	// decompress DCRV
 	decompressed_DCRV, err := util.DecompressData(revocation.Delta_CRV)
-	err = newDCRV.UnmarshalBinary(decompressed_DCRV)
+	err = util.UnmarshalBitset(&newDCRV, decompressed_DCRV)
 	if err != nil {
 		fmt.Println(err)
 	}
diff --git a/util/helpers.go b/util/helpers.go
index 421cfe1..700785f 100644
--- a/util/helpers.go
+++ b/util/helpers.go
@@ -7,6 +7,7 @@ import (
 	"crypto/x509"
 	"encoding/binary"
 	"encoding/pem"
+	"errors"
 	"io"
 	"math"
 	"math/rand"
@@ -17,6 +18,7 @@ import (
 	"time"
 
 	"github.com/Workiva/go-datastructures/bitarray"
+	"github.com/bits-and-blooms/bitset"
 )
 
 func BitsToBytes(ba bitarray.BitArray) []byte {
@@ -173,3 +175,12 @@ func DecompressData(compressedData []byte) ([]byte, error) {
 	}
 	return decompressedData, nil
 }
+
+// UnmarshalBitset decodes a bitset. Decoding allocates memory for the announced
+// length first, so the length must be backed by the data.
+func UnmarshalBitset(b *bitset.BitSet, data []byte) error {
+	if len(data) < 8 || binary.BigEndian.Uint64(data) > uint64(len(data)-8)*8 {
+		return errors.New("invalid bitset")
+	}
+	return b.UnmarshalBinary(data)
+}
-- 
2.43.0


From 222feda3a49f8bca471762543ad4107c35ccbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 42/46] fix: a revocation fragment that overtakes its payload
 is lost

Fragments of revocation statements are sent without the payload. One that
arrived before the payload could not be completed, failed verification and
was dropped; its signer does not send it again, so with a slow network the
gossiper never reaches the threshold. Keep such fragments until the payload
arrives.
---
 gossiper/Init.go            |  1 +
 gossiper/Interface.go       | 34 ++++++++++++++++++++++++++++++++++
 gossiper/gossiper_server.go |  8 ++++++++
 gossiper/types.go           |  1 +
 4 files changed, 44 insertions(+)

diff --git a/gossiper/Init.go b/gossiper/Init.go
index ce30e6f..7e6ad39 100644
--- a/gossiper/Init.go
+++ b/gossiper/Init.go
@@ -22,6 +22,7 @@ func InitializeGossipObjectStorage() *Gossip_object_storage {
 		REV_FULL:         make(map[definition.Gossip_ID]definition.Gossip_object),
 		ACC_FULL:         make(map[definition.Gossip_ID]definition.Gossip_object),
 		REV_PAYLOAD:      make(map[definition.Gossip_ID]definition.Gossip_object),
+		REV_FRAG_WAITING: make(map[definition.Gossip_ID][]definition.Gossip_object),
 		STH_INIT_LOCK:    sync.RWMutex{},
 		REV_INIT_LOCK:    sync.RWMutex{},
 		ACC_INIT_LOCK:    sync.RWMutex{},
diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 8d9fbca..d3e4559 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -60,6 +60,39 @@ func (ctx *GossiperContext) SavePayload(g definition.Gossip_object) {
 	ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.Unlock()
 }
 
+// KeepUntilPayload keeps a fragment that was sent without its payload, if that payload has
+// not arrived yet. It returns false if the payload is there.
+func (ctx *GossiperContext) KeepUntilPayload(g definition.Gossip_object) bool {
+	gid := g.GetID()
+	gid.Type = definition.REV_INIT
+	storage := ctx.Gossip_object_storage
+	storage.REV_PAYLOAD_LOCK.Lock()
+	defer storage.REV_PAYLOAD_LOCK.Unlock()
+	if _, ok := storage.REV_PAYLOAD[gid]; ok {
+		return false
+	}
+	for _, waiting := range storage.REV_FRAG_WAITING[gid] {
+		if waiting.Signer == g.Signer && waiting.Signature == g.Signature {
+			return true
+		}
+	}
+	storage.REV_FRAG_WAITING[gid] = append(storage.REV_FRAG_WAITING[gid], g)
+	return true
+}
+
+// TakeWaiting returns the fragments that waited for this payload, once the payload is there.
+func (ctx *GossiperContext) TakeWaiting(gid definition.Gossip_ID) []definition.Gossip_object {
+	storage := ctx.Gossip_object_storage
+	storage.REV_PAYLOAD_LOCK.Lock()
+	defer storage.REV_PAYLOAD_LOCK.Unlock()
+	if _, ok := storage.REV_PAYLOAD[gid]; !ok {
+		return nil
+	}
+	waiting := storage.REV_FRAG_WAITING[gid]
+	delete(storage.REV_FRAG_WAITING, gid)
+	return waiting
+}
+
 func (ctx *GossiperContext) SearchPayload(gid definition.Gossip_ID, ohash []byte) bool {
 	gid.Type = definition.REV_INIT
 
@@ -697,6 +730,7 @@ func (ctx *GossiperContext) WipeStorage() {
 	storage.ACC_FULL_LOCK.Unlock()
 	storage.REV_PAYLOAD_LOCK.Lock()
 	storage.REV_PAYLOAD = fresh.REV_PAYLOAD
+	storage.REV_FRAG_WAITING = fresh.REV_FRAG_WAITING
 	storage.REV_PAYLOAD_LOCK.Unlock()
 }
 
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index cca3619..2b8e1c9 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -161,6 +161,9 @@ func Gossip_object_handler(c *GossiperContext, w http.ResponseWriter, r *http.Re
 		c.SavePayload(gossip_obj)
 	}
 	if c.Optimization_mode == true && (gossip_obj.Type == definition.REV_FRAG) {
+		if c.KeepUntilPayload(gossip_obj) {
+			return
+		}
 		gossip_obj = c.ReconstructPayload(gossip_obj)
 	}
 	// Verify the object is valid, if invalid we just ignore it
@@ -175,6 +178,11 @@ func Gossip_object_handler(c *GossiperContext, w http.ResponseWriter, r *http.Re
 		}
 	*/
 	Handle_Gossip_object(c, gossip_obj)
+	if gossip_obj.Type == definition.REV_INIT {
+		for _, fragment := range c.TakeWaiting(gossip_obj.GetID()) {
+			Handle_Gossip_object(c, c.ReconstructPayload(fragment))
+		}
+	}
 }
 
 func Handle_Gossip_object(c *GossiperContext, gossip_obj definition.Gossip_object) {
diff --git a/gossiper/types.go b/gossiper/types.go
index ea6d1a4..44a633b 100644
--- a/gossiper/types.go
+++ b/gossiper/types.go
@@ -36,6 +36,7 @@ type Gossip_object_storage struct {
 	REV_FULL         map[definition.Gossip_ID]definition.Gossip_object
 	ACC_FULL         map[definition.Gossip_ID]definition.Gossip_object
 	REV_PAYLOAD      map[definition.Gossip_ID]definition.Gossip_object
+	REV_FRAG_WAITING map[definition.Gossip_ID][]definition.Gossip_object // without payload yet; guarded by REV_PAYLOAD_LOCK
 	STH_INIT_LOCK    sync.RWMutex
 	REV_INIT_LOCK    sync.RWMutex
 	ACC_INIT_LOCK    sync.RWMutex
-- 
2.43.0


From a3b1ceec3022e9a826f3a3cfe08f8eb874623791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 43/46] fix: a logger or CA that never answers a query is never
 accused

---
 monitor/monitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 4a39489..9f1ba88 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -140,6 +140,12 @@ func QueryLoggers(c *MonitorContext) {
 
 }*/
 
+// queryClient gives a logger or CA half of the time before the update to answer:
+// what takes longer counts as no answer, and can still be accused in this period
+func queryClient(c *MonitorContext) *http.Client {
+	return &http.Client{Timeout: time.Duration(c.Monitor_public_config.MMD-20) * time.Second / 2}
+}
+
 func QueryLoggers(c *MonitorContext) {
 	for _, logger := range c.Monitor_private_config.Logger_URLs {
 		if Check_entity_pom(c, logger) {
@@ -152,7 +158,7 @@ func QueryLoggers(c *MonitorContext) {
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				sthResp, err1 := http.Get(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
+				sthResp, err1 := queryClient(c).Get(PROTOCOL + loggerURL + "/ctng/v2/get-sth/")
 				if err1 != nil {
 					log.Println(util.RED+"Query Logger Failed, connection refused.", util.RESET)
 					Wait_then_accuse(c, loggerURL, "logger")
@@ -251,7 +257,7 @@ func QueryAuthorities(c *MonitorContext) {
 				if c.Max_latency > 0 {
 					time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 				}
-				revResp, err1 := http.Get(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
+				revResp, err1 := queryClient(c).Get(PROTOCOL + CAURL + "/ctng/v2/get-revocation/")
 				if err1 != nil {
 					log.Println(util.RED+"Query CA Failed, connection refused.", util.RESET)
 					Wait_then_accuse(c, CAURL, "ca")
-- 
2.43.0


From 87cba5fd677ac2d4c02f8fd53846aeee5ed0d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 44/46] fix: a logger that never answers keeps a CA from
 serving the others and from issuing revocations

---
 CA/server.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index abd102a..9cc796e 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -302,15 +302,8 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, loggers []string) {
 	//fmt.Println(loggers)
 	for i := 0; i < len(loggers); i++ {
-		precert_json := Marshall_Signed_PreCert(precert)
-		//fmt.Println(precert_json)
-		//fmt.Println(loggers[i])
-		resp, err := c.Client.Post(PROTOCOL+loggers[i]+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
-		if err != nil {
-			fmt.Println("Failed to send precert to loggers: ", err)
-		} else {
-			defer resp.Body.Close()
-		}
+		// a logger that does not answer must not hold up the others
+		go Send_Signed_PreCert_To_Logger(c, precert, loggers[i])
 	}
 }
 
-- 
2.43.0


From d7b565416091da2cd0d1bb7a57557ac81e4a3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 45/46] fix: a CA that never answers keeps a logger from
 serving the others

---
 Logger/server.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 1c912d5..437ac99 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -191,7 +191,6 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 			ca := POIs[i].Issuer
 			// send POI to CA
 			Send_POI_to_CA(c, POIs[i], ca)
-			SaveToStorage(*c)
 		}
 	}
 }
@@ -269,11 +268,21 @@ func PeriodicTask(ctx *LoggerContext) {
 		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
+		// send POI to the Issuer CA
+		// a CA that does not answer must not hold up the others
+		issued := make(map[string][]crypto.POI_for_transmission)
+		for _, poi := range POIs {
+			issued[poi.Issuer] = append(issued[poi.Issuer], poi)
+		}
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
-			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
+			go func(ca string) {
+				Send_STH_to_CA(ctx, STH, ca)
+				Send_POIs_to_CAs(&periodctx, issued[ca], sth)
+			}(ctx.Logger_public_config.All_CA_URLs[i])
+		}
+		if len(POIs) > 0 {
+			SaveToStorage(periodctx)
 		}
-		// send POI to the Issuer CA
-		Send_POIs_to_CAs(&periodctx, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
-- 
2.43.0


From 944506cfe988ca7028dab0bfaa39ffe5f18cae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 46/46] fix: the CA takes from a logger only the tree head of
 the next period

---
 CA/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index 9cc796e..5c0987d 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -229,6 +229,12 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		http.Error(w, "invalid STH", http.StatusBadRequest)
 		return
 	}
+	// the loggers send the STH of the next period: another one must not take its place
+	periodnum, _ := strconv.Atoi(GetCurrentPeriod())
+	if gossip_sth.Period != fmt.Sprintf("%02d", (periodnum+1)%60) {
+		http.Error(w, "not the STH of the next period", http.StatusBadRequest)
+		return
+	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
 	c.STH_storage_lock.Lock()
-- 
2.43.0


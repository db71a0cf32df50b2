From 742b88d50cada2ced667cb9c4ebd4f8945a0289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 01/58] fix: status list credential without a subject is an
 error, not a crash

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..c042831 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no credential subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From afe71e05d4a6515003be93353f493401872bca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 02/58] fix: a multi-bit status entry needs one message per
 possible status value

---
 status/validator/bitstringstatus/bitstringstatus.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 473d8ab..c7293d8 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -38,6 +38,8 @@ const (
 	StatusSize = "statusSize"
 	// StatusMessage represents custom descriptive messages about the status of the verifiable credential.
 	StatusMessage = "statusMessage"
+
+	maxStatusSize = 30
 )
 
 // Validator validates a Verifiable Credential's Status field against the BitstringStatusList specification, and
@@ -99,7 +101,12 @@ func checkStatusSize(vcStatus *verifiable.TypedID) error {
 		return nil
 	}
 
-	possibleStatusSizes := 1<<statusSize - 1
+	if statusSize > maxStatusSize {
+		return fmt.Errorf("statusSize must not be greater than %d, but got %d", maxStatusSize, statusSize)
+	}
+
+	// one message per possible status value, zero included
+	possibleStatusSizes := 1 << statusSize
 
 	statusMessages, ok := vcStatus.CustomFields[StatusMessage].([]any)
 	if !ok {
-- 
2.43.0


From 55cf3653591fc2de2d6f2dad40ee29b4bac5bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 03/58] fix: an ECDSA key with neither bytes nor JWK is an
 error, not a crash

---
 crypto-ext/verifiers/ecdsa/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 58523b7..1d1c611 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -54,6 +54,10 @@ func (sv *Verifier) parseKey(pubKey *pubkey.PublicKey) (*ecdsa.PublicKey, error)
 	var ecdsaPubKey *ecdsa.PublicKey
 
 	if pubKey.JWK == nil {
+		if pubKey.BytesKey == nil {
+			return nil, errors.New("ecdsa: missing public key")
+		}
+
 		var err error
 
 		ecdsaPubKey, err = sv.createECDSAPublicKey(pubKey.BytesKey.Bytes)
-- 
2.43.0


From c23ac7b6456158f5c00a2c63cf154afc64c3769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 04/58] fix: an empty list of proofs is a missing proof, not a
 verified one

---
 dataintegrity/verifier.go         | 7 ++++++-
 verifiable/lddocument/verifier.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..17b2a87 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -95,12 +95,17 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMissingProof
 	}
 
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
 	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
 	if err != nil {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
+	for _, proof := range proofs {
 		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
 			return err
 		}
diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From 76b66fc51616dab9f6a7618f2db1b422355889a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 05/58] fix: options taken from one data integrity proof no
 longer apply to the next one

---
 dataintegrity/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 17b2a87..ae49638 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -106,7 +106,10 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 	}
 
 	for _, proof := range proofs {
-		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
+		// verifyProof fills the options it was not given from the proof: each proof gets its own copy.
+		proofOpts := *opts
+
+		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From d7bbb2fbd82113d5c6036d5e95dc100688931c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 06/58] fix: a data integrity proof on a credential must be
 made by the credential's issuer

---
 verifiable/embedded_proof.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..31724bf 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strings"
 
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
@@ -70,7 +71,11 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 				return err
 			}
 
-			return checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts)
+			if err = checkDataIntegrityProof(docBytes, opts.dataIntegrityOpts); err != nil {
+				return err
+			}
+
+			return checkDataIntegrityProofIssuer(proofs, expectedProofIssuer)
 		}
 	}
 
@@ -87,6 +92,23 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 	return nil
 }
 
+// checkDataIntegrityProofIssuer checks that every proof was made with a verification method of the expected issuer.
+func checkDataIntegrityProofIssuer(proofs []map[string]interface{}, expectedProofIssuer *string) error {
+	if expectedProofIssuer == nil {
+		return nil
+	}
+
+	for _, p := range proofs {
+		verificationMethod, ok := p["verificationMethod"].(string)
+		if !ok || strings.Split(verificationMethod, "#")[0] != *expectedProofIssuer {
+			return fmt.Errorf("data integrity proof: verification method %v does not belong to issuer %s",
+				p["verificationMethod"], *expectedProofIssuer)
+		}
+	}
+
+	return nil
+}
+
 func getProofs(proofElement interface{}) ([]map[string]interface{}, error) {
 	switch p := proofElement.(type) {
 	case map[string]interface{}:
-- 
2.43.0


From 2f3fdcf326fb5f420442fe616bab44edf9ea6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 07/58] fix: parsed disclosures keep the order in which they
 were given

---
 sdjwt/common/common.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..4867c42 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -140,8 +140,18 @@ func GetDisclosureClaims(
 
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
 
-	for _, disclosureClaim := range recData.disclosures {
-		final = append(final, disclosureClaim)
+	// Keep the order of the given disclosures.
+	for _, disclosure := range disclosures {
+		digest, err := GetHash(hash, disclosure)
+		if err != nil {
+			return nil, fmt.Errorf("get disclosure hash: %w", err)
+		}
+
+		if disclosureClaim, ok := disclosureClaims[digest]; ok {
+			final = append(final, disclosureClaim)
+
+			delete(disclosureClaims, digest)
+		}
 	}
 
 	return final, nil
-- 
2.43.0


From 25205933ac44bcc08e02d5db99f66ff3ea1cb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 08/58] fix: base context validation of a credential without
 types or contexts is an error, not a crash

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..1d3eb8b 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1641,11 +1641,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From e9f6ca7ec7f2d226a175925c7685396feeea092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 09/58] fix: a token without credential, presentation or
 registered claims is an error, not a crash

---
 verifiable/credential_jwt.go   |  8 ++++++++
 verifiable/presentation_jwt.go | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..d986e9d 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -181,7 +181,15 @@ func decodeCredJWT(rawJWT string) (jose.Headers, []byte, error) {
 
 func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
+	if vcMap == nil {
+		return errors.New("credential is missing")
+	}
+
 	claims := jcc.Claims
+	if claims == nil {
+		// There are no registered claims to apply.
+		return nil
+	}
 
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..8457fd7 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -20,6 +21,11 @@ type JWTPresClaims struct {
 }
 
 func (jpc *JWTPresClaims) refineFromJWTClaims() {
+	if jpc.Claims == nil {
+		// There are no registered claims to apply.
+		return
+	}
+
 	raw := jpc.Presentation
 
 	if jpc.Issuer != "" {
@@ -79,6 +85,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 		return nil, nil, fmt.Errorf("decode Verifiable Presentation JWT claims: %w", err)
 	}
 
+	if presClaims.Presentation == nil {
+		return nil, nil, errors.New("\"vp\" claim of JWT is missing")
+	}
+
 	// Apply VC-related claims from JWT.
 	presClaims.refineFromJWTClaims()
 
-- 
2.43.0


From 2aaf923952d0b4a1e3b813fe919e936f0f547bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 10/58] fix: a CBOR presentation is returned only if its proof
 was accepted

---
 verifiable/presentation_parser.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..927f694 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -141,6 +142,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 		return nil, errors.Join(errors.New("parsed vp cbor message is nil"), rawErr, hexRawErr, hexErr)
 	}
 
+	if err := p.checkProof(message, vpOpts); err != nil {
+		return nil, err
+	}
+
 	var vpMap map[interface{}]interface{}
 	if err := cbor.Unmarshal(message.Payload, &vpMap); err != nil {
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
@@ -165,6 +170,28 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+func (p *PresentationCWTParser) checkProof(message *cose.Sign1Message, vpOpts *presentationOpts) error {
+	if vpOpts.disabledProofCheck {
+		return nil
+	}
+
+	if vpOpts.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return err
+	}
+
+	err = cwt.CheckProof(message, vpOpts.proofChecker, nil, proofValue, message.Signature)
+	if err != nil {
+		return fmt.Errorf("cwt proof check: %w", err)
+	}
+
+	return nil
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 8b89a5708fb4f62551dfb09b62bf99735e07d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 11/58] fix: a new data integrity proof does not cover the
 proof it replaces

---
 dataintegrity/signer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..44100fd 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -98,7 +98,13 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// The new proof takes the place of any earlier one, so it must not cover it.
+	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
+	if err != nil {
+		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
@@ -125,7 +131,7 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrProofGeneration
 	}
 
-	out, err := sjson.SetRawBytes(doc, proofPath, proofRaw)
+	out, err := sjson.SetRawBytes(unsecuredDoc, proofPath, proofRaw)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
-- 
2.43.0


From fec72d7c204d39a47120ac498132638f20539989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 12/58] fix: an eddsa-2022 proof names the cryptographic suite
 it was made with

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..78f37e5 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -194,9 +194,14 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		expires = opts.Expires.Format(models.DateTimeFormat)
 	}
 
+	suiteType := SuiteType
+	if opts.SuiteType != "" {
+		suiteType = opts.SuiteType
+	}
+
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        suiteType,
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-- 
2.43.0


From 565933def2d811d946c9a651fa806aa36e264c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 13/58] fix: a data integrity proof without a creation time
 does not state one

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 7 ++++++-
 dataintegrity/suite/eddsa2022/eddsa2022.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..e5af6c7 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -206,6 +206,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
+	var created string
+	if !opts.Created.IsZero() {
+		created = opts.Created.Format(models.DateTimeFormat)
+	}
+
 	var expires string
 	if !opts.Expires.IsZero() {
 		expires = opts.Expires.Format(models.DateTimeFormat)
@@ -219,7 +224,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		Challenge:          opts.Challenge,
 		VerificationMethod: opts.VerificationMethod.ID,
 		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
+		Created:            created,
 		Expires:            expires,
 	}
 
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index 78f37e5..eb2d9c7 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -189,6 +189,11 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		return nil, err
 	}
 
+	var created string
+	if !opts.Created.IsZero() {
+		created = opts.Created.Format(models.DateTimeFormat)
+	}
+
 	var expires string
 	if !opts.Expires.IsZero() {
 		expires = opts.Expires.Format(models.DateTimeFormat)
@@ -207,7 +212,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 		Challenge:          opts.Challenge,
 		VerificationMethod: opts.VerificationMethod.ID,
 		ProofValue:         sigStr,
-		Created:            opts.Created.Format(models.DateTimeFormat),
+		Created:            created,
 		Expires:            expires,
 	}
 
-- 
2.43.0


From 462abb8a810f0ed9d1ea1e61b2f98c1ef36ee95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 14/58] fix: digests in objects inside arrays are processed,
 and empty arrays and null claims are kept

---
 sdjwt/common/verification.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..d8dddc5 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -156,21 +156,24 @@ func setDisclosureClaimValue(recData *recursiveData, disclosureClaim *Disclosure
 func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{}, error) { // nolint:funlen,gocyclo
 	switch disclosureValue := claim.(type) {
 	case []interface{}:
-		var newValues []interface{}
+		newValues := make([]interface{}, 0, len(disclosureValue))
 
 		for _, value := range disclosureValue {
-			parsedMap, ok := getMap(value)
-			if !ok {
-				// If it's not a map - use value as it is.
-				newValues = append(newValues, value)
-				continue
-			}
-
 			// Find all array elements that are objects with one key, that key being ... and referring to a string.
+			parsedMap, _ := getMap(value)
+
 			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]
-			if !ok {
-				// If it's not a array element digest - object - use value as it is.
-				newValues = append(newValues, value)
+			if !ok || len(parsedMap) != 1 {
+				// If it's not an array element digest - it may still have nested digests.
+				newValue, err := discloseClaimValue(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				if newValue != nil || value == nil {
+					newValues = append(newValues, newValue)
+				}
+
 				continue
 			}
 
@@ -212,7 +215,8 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 			newValues = append(newValues, disclosureClaim.Value)
 		}
 
-		if len(newValues) == 0 {
+		// An array is left out if none of its elements is disclosed.
+		if len(newValues) == 0 && len(disclosureValue) > 0 {
 			return nil, nil
 		}
 
@@ -285,7 +289,7 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
 			}
 
-			if newValue != nil {
+			if newValue != nil || disclosureNestedClaim == nil {
 				newValues[k] = newValue
 			}
 		}
-- 
2.43.0


From 1c5f5034f60395e44e82001a0f68369a7bc730c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 15/58] fix: a disclosure named as digest bookkeeping is
 refused

---
 sdjwt/common/verification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index d8dddc5..48b1816 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -379,6 +379,11 @@ func enrichWithSDElement(claim *DisclosureClaim, disclosureElementsArr []interfa
 		return fmt.Errorf("disclosure name type[%T] must be string", disclosureElementsArr[1])
 	}
 
+	// From spec: if the claim name is _sd or ..., the SD-JWT MUST be rejected.
+	if name == SDKey || name == ArrayElementDigestKey {
+		return fmt.Errorf("disclosure name '%s' is not allowed", name)
+	}
+
 	claim.Name = name
 	claim.Value = disclosureElementsArr[sdDigestValuePosition]
 
-- 
2.43.0


From 759dedbd1e410dd4e6be7bea39189f413d0675d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 16/58] fix: a time claim at or beyond the range of times is an
 error or a time, not a crash or another time

---
 util/maphelpers/mapstruct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/maphelpers/mapstruct.go b/util/maphelpers/mapstruct.go
index 0d0f17c..52e4ed2 100644
--- a/util/maphelpers/mapstruct.go
+++ b/util/maphelpers/mapstruct.go
@@ -8,15 +8,18 @@ package maphelpers
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 	"github.com/mitchellh/mapstructure"
 )
 
+// maxNumericDate bounds the seconds for which time.Time does not overflow.
+const maxNumericDate = 1 << 62
+
 // JSONNumberToJwtNumericDate hook for mapstructure library to decode json.Number to jwt.NumericDate.
 func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 	return func(
@@ -33,7 +36,11 @@ func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 			return nil, err
 		}
 
-		date := jwt.NewNumericDate(time.Unix(int64(parsedFloat), 0))
+		if math.Abs(parsedFloat) > maxNumericDate {
+			return nil, fmt.Errorf("numeric date %v is out of range", data)
+		}
+
+		date := jwt.NumericDate(int64(parsedFloat))
 
 		if t.String() == "jwt.NumericDate" {
 			return date, nil
-- 
2.43.0


From 453104a88cf25626c254795340e35bec0bf34661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 17/58] fix: decoys of a version 5 token are not among its
 disclosures

---
 sdjwt/issuer/v5.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..6ad3d95 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,13 +96,13 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
-	var allDisclosures []*DisclosureEntity
+	var allDisclosures, finalSDDigest []*DisclosureEntity
 
 	for key, value := range claims {
 		curPath := key
@@ -237,7 +237,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 43ae6d6f8e9b871f3b65c91efd19b8262776b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 18/58] fix: null claims and empty arrays can be issued in a
 version 5 token

---
 sdjwt/issuer/v5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 6ad3d95..2d6428a 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -110,7 +110,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.ValueOf(value).Kind()
 
 		valOption := s.extractValueOptions(curPath, opts)
 
@@ -257,7 +257,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 ) ([]interface{}, []*DisclosureEntity, error) {
 	valSl := reflect.ValueOf(value)
 
-	var digestArr []interface{}
+	digestArr := []interface{}{}
 
 	var elementsDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 78333199101bd6a29ccd7fdc2b2d637167807aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 19/58] fix: a claim with an empty name is disclosed by that
 name in a version 5 token

---
 sdjwt/issuer/v5.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 2d6428a..c2ddd37 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -271,7 +271,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 			continue
 		}
 
-		disclosure, err := s.createDisclosure("", elementValue, opts)
+		disclosure, err := s.createElementDisclosure(elementValue, opts)
 		if err != nil {
 			return nil, nil,
 				fmt.Errorf("create element disclosure for path [%v]: %w", elementPath, err)
@@ -294,6 +294,22 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	key string,
 	value interface{},
 	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure(key, []interface{}{key, value}, opts)
+}
+
+// createElementDisclosure creates the disclosure of an array element, which has no name.
+func (s *SDJWTBuilderV5) createElementDisclosure(
+	value interface{},
+	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure("", []interface{}{value}, opts)
+}
+
+func (s *SDJWTBuilderV5) newDisclosure(
+	key string,
+	content []interface{},
+	opts *newOpts,
 ) (*DisclosureEntity, error) {
 	if opts.getSalt == nil {
 		return nil, errors.New("missing salt function")
@@ -308,13 +324,7 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	finalDis := &DisclosureEntity{
 		Salt: salt,
 	}
-	disclosure := []interface{}{salt}
-
-	if key != "" {
-		disclosure = append(disclosure, key)
-	}
-
-	disclosure = append(disclosure, value)
+	disclosure := append([]interface{}{salt}, content...)
 
 	disclosureBytes, err := opts.jsonMarshal(disclosure)
 	if err != nil {
@@ -322,7 +332,7 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	}
 
 	finalDis.Key = key
-	finalDis.Value = value
+	finalDis.Value = content[len(content)-1]
 	finalDis.Result = base64.RawURLEncoding.EncodeToString(disclosureBytes)
 
 	if s.debugMode {
-- 
2.43.0


From aad353d8fec7973ab5590173811f33d4865e51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 20/58] fix: keep the custom contexts of a presentation when it
 is written

---
 verifiable/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..2952a2f 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -497,7 +497,7 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
 	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From 77866cbe4b440197504ba1b1a6f73fabadb7bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 21/58] fix: take the header of a related resource digest only
 where there is one

---
 verifiable/related_resource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..9b07bc0 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -197,7 +197,8 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
+	hasHeader := enc == multibase.Base64url && len(decodedDigest) == sha256.Size+2 &&
+		decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
 	if hasHeader { // skip header
 		decodedDigest = decodedDigest[2:]
 	}
-- 
2.43.0


From 05c873dcf289c8ff5629737cbbbfda8c1020cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 22/58] fix: allow dashes in the digest of a related resource

---
 verifiable/related_resource.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 9b07bc0..6e8bc7c 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -157,7 +157,7 @@ func (r *RelatedResourceValidator) validateSingleResource(
 	var hash string
 
 	if res.DigestSRI != "" {
-		sp := strings.Split(res.DigestSRI, "-")
+		sp := strings.SplitN(res.DigestSRI, "-", 2)
 
 		if len(sp) != 2 {
 			return fmt.Errorf("invalid digest SRI format: %s", res.DigestSRI)
-- 
2.43.0


From 1807967a3d510a5f01041e642c743916d5890453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 23/58] fix: do not let inline contexts pass the base context
 validation

---
 verifiable/credential.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 1d3eb8b..962419f 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1645,7 +1645,7 @@ func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *cre
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
@@ -1660,6 +1660,10 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 		}
 	}
 
+	if len(vcc.CustomContext) > 0 {
+		return fmt.Errorf("not allowed @context: %v", vcc.CustomContext[0])
+	}
+
 	for _, vcType := range vcc.Types {
 		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {
 			return fmt.Errorf("not allowed type: %s", vcType)
-- 
2.43.0


From 0ef8772088a4612e1d9bdef1b3a917263c0bedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 24/58] fix: give created credentials plain JSON lists and
 objects

A credential created with several subjects, statuses, schemas or terms, or
with related resources, held typed slices in its JSON object, which parsing
that object (ToRawJSON to ParseCredentialJSON) refused.
---
 verifiable/credential.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 962419f..2f55af6 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2166,7 +2166,9 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} {
+		return SubjectToJSON(s)
+	})
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2486,7 +2488,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2513,7 +2515,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 	}
 
 	if len(vcc.RelatedResources) > 0 {
-		vcJSON[jsonFldRelatedResource] = vcc.RelatedResources
+		vcJSON[jsonFldRelatedResource] = mapSlice(vcc.RelatedResources, serializeRelatedResource)
 	}
 
 	if len(vcc.TermsOfUse) > 0 {
@@ -2581,10 +2583,29 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(typedID TypedID) interface{} {
+			return serializeTypedIDObj(typedID)
+		})
 	}
 }
 
+func serializeRelatedResource(resource RelatedResource) interface{} {
+	raw := JSONObject{}
+
+	for fld, value := range map[string]string{
+		"id":              resource.Id,
+		"digestSRI":       resource.DigestSRI,
+		"digestMultibase": resource.DigestMultiBase,
+		"mediaType":       resource.MediaType,
+	} {
+		if value != "" {
+			raw[fld] = value
+		}
+	}
+
+	return raw
+}
+
 // MarshalJSON converts Verifiable Credential to JSON bytes.
 func (vc *Credential) MarshalJSON() ([]byte, error) {
 	obj, err := vc.ToUniversalForm()
-- 
2.43.0


From b337d37207e2bc298612591764e7784ec2aff3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 25/58] fix: let a nil date remove the date of a modified
 credential

WithModifiedIssued, -Expired, -ValidFrom and -ValidUntil crashed on nil,
which the other WithModified methods take as removal.
---
 verifiable/credential.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 2f55af6..e998b91 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2554,6 +2554,14 @@ func serializeTime(t *util.TimeWrapper) interface{} {
 	return t.FormatToString()
 }
 
+func setTimeFld(obj JSONObject, fldName string, t *util.TimeWrapper) {
+	if t != nil {
+		obj[fldName] = serializeTime(t)
+	} else {
+		delete(obj, fldName)
+	}
+}
+
 func serializeTypes(types []string) interface{} {
 	if len(types) == 1 {
 		// as string
@@ -2680,7 +2688,7 @@ func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, jsonFldIssued, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2694,7 +2702,7 @@ func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, jsonFldExpired, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2708,7 +2716,7 @@ func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credenti
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, jsonFldValidFrom, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2722,7 +2730,7 @@ func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credent
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	setTimeFld(newCredJSON, jsonFldValidUntil, wrapper)
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
-- 
2.43.0


From ad7a0823698fb1f2ca66c1cd951f3b472f823568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:29 +0000
Subject: [PATCH 26/58] fix: make token claims of a credential without issuer
 or issuance date

JWTClaims crashed without an issuer, and CWTClaims also without a date.
---
 verifiable/credential_cwt.go | 11 +++++++----
 verifiable/credential_jwt.go |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..cb7a929 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -33,10 +33,12 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		claims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +47,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time) // nbf
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index d986e9d..516bdb0 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -109,9 +109,12 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
-		Issuer:  vcc.Issuer.ID, // iss
-		ID:      vcc.ID,        // jti
-		Subject: subjectID,     // sub
+		ID:      vcc.ID,    // jti
+		Subject: subjectID, // sub
+	}
+
+	if vcc.Issuer != nil {
+		jwtClaims.Issuer = vcc.Issuer.ID // iss
 	}
 
 	if vcc.Expired != nil {
-- 
2.43.0


From db4faab22d9932389356324934834a10c7b875b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 27/58] fix: disclose every claim of a chosen name, in order

Names are unique only within one object, so a credential can have several
disclosures of one name. MarshalWithDisclosure kept only the last one of
each name, in random order.
---
 verifiable/credential_sdjwt.go | 35 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..6dfa91a 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -224,43 +224,32 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
+	// Maps each chosen name to whether there is a disclosure for it.
+	chosen := map[string]bool{}
 
 	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
+		chosen[name] = false
 	}
 
 	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
-	}
-
-	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
-
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
-		}
+		chosen[name] = false
 	}
 
 	var out []*common.DisclosureClaim
 
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
+	// Several disclosures can have the same name, as names are unique only within one object.
+	for _, disclosure := range disclosures {
+		if _, ok := chosen[disclosure.Name]; ok {
+			chosen[disclosure.Name] = true
+
+			out = append(out, disclosure)
 		}
 	}
 
-	for _, claim := range reqMap {
-		if claim == nil {
+	for _, name := range required {
+		if !chosen[name] {
 			return nil, errors.New("disclosure list missing required claim")
 		}
-
-		out = append(out, claim)
 	}
 
 	return out, nil
-- 
2.43.0


From a011aa70d3bab5e6f15ccc70b533f9d997fad279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 28/58] fix: display only the chosen ones of nested disclosures

The value of a parsed disclosure has the disclosures nested in it already
resolved, so displaying it showed claims that were not chosen.
---
 verifiable/credential_sdjwt.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 6dfa91a..3f640cb 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -485,7 +485,11 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options,
+		*vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return nil, fmt.Errorf("filter disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -547,7 +551,11 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options,
+		*vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return nil, fmt.Errorf("filter disclosures: %w", err)
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -561,9 +569,13 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
-func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
+func filterDisclosureList(
+	disclosures []*common.DisclosureClaim,
+	options *displayCredOpts,
+	hash crypto.Hash,
+) ([]*common.DisclosureClaim, error) {
 	if options.displayAll {
-		return disclosures
+		return disclosures, nil
 	}
 
 	displayGivenMap := map[string]struct{}{}
@@ -572,15 +584,17 @@ func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displa
 		displayGivenMap[given] = struct{}{}
 	}
 
-	var out []*common.DisclosureClaim
+	var codes []string
 
 	for _, disclosure := range disclosures {
 		if _, ok := displayGivenMap[disclosure.Name]; ok {
-			out = append(out, disclosure)
+			codes = append(codes, disclosure.Disclosure)
 		}
 	}
 
-	return out
+	// The values of the parsed disclosures contain the disclosures nested in them, chosen or not,
+	// so the chosen ones are parsed on their own.
+	return common.GetDisclosureClaims(codes, hash)
 }
 
 func clearEmpty(claims map[string]interface{}) {
-- 
2.43.0


From 5dfab636970cb8630285ec1bd042714499f2f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 29/58] fix: display SD-JWT credentials with the hash algorithm
 in the subject

Parsing accepts _sd_alg inside credentialSubject, but the display form of
such a credential failed.
---
 verifiable/credential_sdjwt.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 3f640cb..e71cce5 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -491,6 +491,11 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("filter disclosures: %w", err)
 	}
 
+	err = vc.ensureSDAlg(credClaims.VC)
+	if err != nil {
+		return nil, fmt.Errorf("set hash algorithm of vc: %w", err)
+	}
+
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
 		return nil, fmt.Errorf("assembling disclosed claims into vc: %w", err)
@@ -557,6 +562,11 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("filter disclosures: %w", err)
 	}
 
+	err = vc.ensureSDAlg(credClaims.VC)
+	if err != nil {
+		return nil, fmt.Errorf("set hash algorithm of vc: %w", err)
+	}
+
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
 		return nil, fmt.Errorf("assembling disclosed claims into vc: %w", err)
@@ -569,6 +579,22 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
+// ensureSDAlg sets the hash algorithm of an SD-JWT credential that has it in its subject only.
+func (vc *Credential) ensureSDAlg(claims map[string]interface{}) error {
+	if _, ok := claims[common.SDAlgorithmKey]; ok {
+		return nil
+	}
+
+	alg, err := common.FormatCryptoHashAlg(*vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return err
+	}
+
+	claims[common.SDAlgorithmKey] = alg
+
+	return nil
+}
+
 func filterDisclosureList(
 	disclosures []*common.DisclosureClaim,
 	options *displayCredOpts,
-- 
2.43.0


From f9bdce88d02381f79705fc06dc5a3e35bb637b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 30/58] fix: compare the sub claim of a linkage token with the
 DID

The check compared the subject of the credential with itself, so a token
about another subject passed.
---
 didconfig/verifier/didconfig.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..95c9912 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -280,7 +280,17 @@ func validateJWTPayload(vc *verifiable.Credential, payload map[string]interface{
 		return fmt.Errorf("JWT Payload: %w", err)
 	}
 
-	return validateJWTClaims(vc, did)
+	err = validateJWTClaims(vc, did)
+	if err != nil {
+		return err
+	}
+
+	// the claims checked above are those of the credential, the payload can have another subject
+	if sub, ok := payload["sub"]; ok && sub != did {
+		return errors.New("sub MUST be equal to credentialSubject.id")
+	}
+
+	return nil
 }
 
 func validateJWTClaims(vc *verifiable.Credential, did string) error {
-- 
2.43.0


From 9ea99f2807dcfbba56847bbc36942fef2c59b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 31/58] fix: compare linkage origins without a scheme

Such origins have no host, so any two of them were taken as the same.
---
 didconfig/verifier/didconfig.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 95c9912..2c8b707 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -389,6 +389,11 @@ func validateOrigin(origin1, origin2 string) error {
 		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
 	}
 
+	// there are no hosts to compare when both origins lack the scheme
+	if url1.Host == "" && origin1 != origin2 {
+		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From fca0fcfafdc2f90eaf621fca16a361ebac96449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 32/58] fix: accept presentation definition filters without a
 type

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..eeb0fd0 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1459,7 +1459,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 5ecf6d2e83b244a846aee6bb4feef0665b360869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 33/58] fix: match constraints that have no fields

---
 presexch/definition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index eeb0fd0..9bde7ae 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -962,7 +962,8 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		// constraints without fields do not restrict the credential any further.
+		applicable := len(constraints.Fields) == 0
 
 		var err error
 
-- 
2.43.0


From 51c9bf2bd79be9b7ae457f9e41d62115c8080b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 34/58] fix: refuse presentation definitions with duplicate
 input descriptors

---
 presexch/api.go        |  5 +++++
 presexch/definition.go | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..6c7d7ea 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -124,6 +124,11 @@ func (pd *PresentationDefinition) Match(
 		options[i](opts)
 	}
 
+	err := pd.checkDescriptorIDs()
+	if err != nil {
+		return nil, err
+	}
+
 	result, err := getMatchedCreds(pd, vpList, contextLoader, opts)
 	if err != nil {
 		return nil, err
diff --git a/presexch/definition.go b/presexch/definition.go
index 9bde7ae..291e8ae 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -299,7 +299,7 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	}
 
 	if result.Valid() {
-		return nil
+		return pd.checkDescriptorIDs()
 	}
 
 	resultErrors := result.Errors()
@@ -312,6 +312,21 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	return errors.New(strings.Join(errs, ","))
 }
 
+// checkDescriptorIDs ensures that the input descriptors have different IDs.
+func (pd *PresentationDefinition) checkDescriptorIDs() error {
+	ids := map[string]struct{}{}
+
+	for _, descriptor := range pd.InputDescriptors {
+		if _, ok := ids[descriptor.ID]; ok {
+			return fmt.Errorf("duplicate input descriptor id: %s", descriptor.ID)
+		}
+
+		ids[descriptor.ID] = struct{}{}
+	}
+
+	return nil
+}
+
 type constraintsFilterResult struct {
 	credential    *verifiable.Credential
 	credentialSrc []byte
-- 
2.43.0


From 6d33e33fb98373db4e666e05d75c728e69a44a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 35/58] fix: match descriptors that have no schema

---
 presexch/api.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 6c7d7ea..708923e 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -223,14 +223,17 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			inputDescriptor := pd.inputDescriptor(mapping.ID)
 
-			var fltErr error
-
-			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
-			if fltErr != nil {
-				return nil, err
+			passed := []*verifiable.Credential{vc}
+
+			// Validate schema only for v1
+			if inputDescriptor.Schema != nil && !opts.DisableSchemaValidation {
+				passed, err = filterSchema(inputDescriptor.Schema, passed, contextLoader)
+				if err != nil {
+					return nil, err
+				}
 			}
 
-			if len(passed) == 0 && !opts.DisableSchemaValidation {
+			if len(passed) == 0 {
 				vcc := vc.Contents()
 
 				return nil, fmt.Errorf(
-- 
2.43.0


From 78dc6b9a6a446b07687c5294546dd6355454955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 36/58] fix: keep credentials without an ID apart in
 presentation submissions

---
 presexch/definition.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 291e8ae..3407f18 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1701,7 +1701,7 @@ func merge(
 	setOfCredentials map[string][]*credWrapper,
 	separatePresentations bool,
 ) ([]*verifiable.Credential, []*InputDescriptorMapping) {
-	setOfCreds := make(map[string]int)
+	setOfCreds := make(map[interface{}]int)
 
 	var (
 		result      []*verifiable.Credential
@@ -1727,10 +1727,16 @@ func merge(
 		for _, credWrap := range credentials {
 			credential := credWrap.vc
 
-			if _, ok := setOfCreds[credWrap.uniqueID]; !ok {
+			var credKey interface{} = credWrap.uniqueID
+			if credWrap.uniqueID == "" {
+				// credentials without an ID are different from one another.
+				credKey = credential
+			}
+
+			if _, ok := setOfCreds[credKey]; !ok {
 				result = append(result, credential)
 
-				setOfCreds[credWrap.uniqueID] = len(result) - 1
+				setOfCreds[credKey] = len(result) - 1
 			}
 
 			vcFormat := FormatLDPVC
@@ -1748,11 +1754,11 @@ func merge(
 			}
 
 			if separatePresentations {
-				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[credWrap.uniqueID])
+				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[credKey])
 				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[0]", jwtVPPath)
 			} else {
 				desc.Path = "$"
-				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[credWrap.uniqueID])
+				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[credKey])
 			}
 
 			descriptors = append(descriptors, desc)
-- 
2.43.0


From 53bd33d788915cd3038b890169392dcf7349c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 37/58] fix: apply all the keywords of filters that have
 subschemas

---
 presexch/definition.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 3407f18..c439f7c 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1486,6 +1486,10 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 			}
 		}
 
+		if len(filter.AllOf) > 0 {
+			filter.Type = nil // the types are up to the subschemas
+		}
+
 		schema = gojsonschema.NewGoLoader(filter)
 	}
 
@@ -1628,21 +1632,9 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return err
 	}
 
-	var schemasToExecute []gojsonschema.JSONLoader
-
-	for _, all := range field.Filter.AllOf {
-		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(all))
-	}
-
-	if len(schemasToExecute) == 0 {
-		schemasToExecute = append(schemasToExecute, schema) // fallback
-	}
-
-	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
-		if err != nil || !result.Valid() {
-			return errors.Join(errPathNotApplicable)
-		}
+	result, err := gojsonschema.Validate(schema, gojsonschema.NewBytesLoader(raw))
+	if err != nil || !result.Valid() {
+		return errors.Join(errPathNotApplicable)
 	}
 
 	return nil
-- 
2.43.0


From 28e4112c048c53f2b428e063f86aa56c110f8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 38/58] fix: compare dates in presentation definition filters
 as dates only where they are

---
 presexch/definition.go | 45 +++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index c439f7c..5f53cb5 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1475,15 +1475,11 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
-			if val, ok := filter.Minimum.(string); ok && val != "" {
-				if t, err := time.Parse(time.RFC3339, val); err == nil {
-					numFilterType := "number"
-					filter.Type = &numFilterType
-					filter.Format = ""
-					filter.Minimum = t.Unix()
-				}
-			}
+		if minimum, ok := minimumDate(&filter); ok {
+			numFilterType := "number"
+			filter.Type = &numFilterType
+			filter.Format = ""
+			filter.Minimum = minimum.Unix()
 		}
 
 		if len(filter.AllOf) > 0 {
@@ -1618,8 +1614,8 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 		return nil
 	}
 
-	// convert date string to Unix timestamp for JWT credential
-	if isJWTCredential && field.Path != nil && isDateField(field.Path) {
+	// convert date string to Unix timestamp if it is compared as such
+	if comparesDate(field, isJWTCredential) {
 		if val, ok := patch.(string); ok {
 			if t, err := time.Parse(time.RFC3339, val); err == nil {
 				patch = t.Unix()
@@ -1640,6 +1636,33 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	return nil
 }
 
+// minimumDate returns the date that values of the field must not precede, if the filter has one.
+func minimumDate(filter *Filter) (time.Time, bool) {
+	if filter.Type == nil || *filter.Type != "string" || filter.Format != "date-time" {
+		return time.Time{}, false
+	}
+
+	val, ok := filter.Minimum.(string)
+	if !ok || val == "" {
+		return time.Time{}, false
+	}
+
+	t, err := time.Parse(time.RFC3339, val)
+
+	return t, err == nil
+}
+
+// comparesDate returns whether dates are compared as Unix timestamps by the filter of the field.
+func comparesDate(field *Field, isJWTCredential bool) bool {
+	if _, ok := minimumDate(field.Filter); ok {
+		return true
+	}
+
+	isString := field.Filter.Type != nil && *field.Filter.Type == "string"
+
+	return isJWTCredential && !isString && isDateField(field.Path)
+}
+
 func isDateField(paths []string) bool {
 	// date fields that are refined from JWT claims
 	dateKeywords := []string{".expirationDate", ".issuanceDate", ".validFrom", ".validUntil"}
-- 
2.43.0


From 65d96d8c34a62d2944769c2c3805b7ea187073df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 39/58] fix: select submitted credentials with plain JSONPath
 only

---
 presexch/api.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 708923e..0fcf2a2 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -7,16 +7,14 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"context"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"strconv"
 	"strings"
 
-	"github.com/PaesslerAG/gval"
-	"github.com/PaesslerAG/jsonpath"
 	"github.com/piprate/json-gold/ld"
+	"github.com/theory/jsonpath"
 
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/verifiable"
@@ -264,8 +262,6 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 func selectVC(typelessVerifiable interface{},
 	mapping *InputDescriptorMapping, opts *MatchOptions) (*verifiable.Credential, error) {
-	builder := gval.Full(jsonpath.PlaceholderExtension())
-
 	var vc *verifiable.Credential
 
 	var err error
@@ -273,11 +269,11 @@ func selectVC(typelessVerifiable interface{},
 	for {
 		typelessVerifiableCopy := typelessVerifiable
 
-		typelessVerifiable, err = selectByPath(builder, typelessVerifiable, mapping.Path)
+		typelessVerifiable, err = selectByPath(typelessVerifiable, mapping.Path)
 		if err != nil {
 			// TODO: Remove this workaround once all dependent projects are updated to the latest version of vc-go and
 			// support the proper path for JWT VPs.
-			if typelessVerifiable, err = selectByPath(builder, typelessVerifiableCopy,
+			if typelessVerifiable, err = selectByPath(typelessVerifiableCopy,
 				strings.Replace(mapping.Path, "$.", "$.vp.", 1), // adjust the path to the correct JWT VP path
 			); err != nil {
 				return nil, fmt.Errorf("failed to select vc from submission: %w", err)
@@ -471,18 +467,18 @@ func rootIndex(jsonPathStr string) int {
 // [The Input Descriptor Mapping Object] MUST include a path property, and its value MUST be a JSONPath
 // string expression that selects the credential to be submit in relation to the identified Input Descriptor
 // identified, when executed against the top-level of the object the Presentation Submission is embedded within.
-func selectByPath(builder gval.Language, vp interface{}, jsonPath string) (interface{}, error) {
-	path, err := builder.NewEvaluable(jsonPath)
+func selectByPath(vp interface{}, jsonPath string) (interface{}, error) {
+	path, err := jsonpath.Parse(jsonPath)
 	if err != nil {
-		return nil, fmt.Errorf("failed to build new json path evaluator: %w", err)
+		return nil, fmt.Errorf("failed to parse json path [%s]: %w", jsonPath, err)
 	}
 
-	cred, err := path(context.TODO(), vp)
-	if err != nil {
-		return nil, fmt.Errorf("failed to evaluate json path [%s]: %w", jsonPath, err)
+	selected := path.Select(vp)
+	if len(selected) != 1 {
+		return nil, fmt.Errorf("json path [%s] selects %d values, expected 1", jsonPath, len(selected))
 	}
 
-	return cred, nil
+	return selected[0], nil
 }
 
 func stringsContain(s []string, val string) bool {
-- 
2.43.0


From da6f2eff321983311518d4520777e783f2b66fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 40/58] fix: refuse empty mappings in a presentation submission

---
 presexch/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 0fcf2a2..d18e679 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -194,6 +194,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		}
 
 		for _, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("an empty mapping was found in %s", descriptorMapProperty)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
-- 
2.43.0


From 8d7f4991ead2afa4f14a4d7f556dc4f573f80faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 41/58] fix: accept bracketed names in the paths of a
 presentation submission

---
 presexch/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index d18e679..021c4b7 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -406,7 +406,7 @@ func descriptorIDs(input []*InputDescriptor) map[string]bool {
 }
 
 func descriptorMappingExpectsVPList(idm *InputDescriptorMapping) bool {
-	if strings.HasPrefix(idm.Path, "$[") {
+	if rootIndex(idm.Path) != -1 {
 		return true
 	}
 
-- 
2.43.0


From 463c51dd3fe599a6afa3bea90d368d1332f348f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:49 +0000
Subject: [PATCH 42/58] fix: refuse mappings to presentations that are not
 there

---
 presexch/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/presexch/api.go b/presexch/api.go
index 021c4b7..c8ecb71 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -167,6 +167,12 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		mappingsByVPIndex = descriptorsByPresentationIndex(descs)
 	}
 
+	for idx := range mappingsByVPIndex {
+		if idx < 0 || idx >= len(vpList) {
+			return nil, fmt.Errorf("%s refers to presentation %d of %d", descriptorMapProperty, idx, len(vpList))
+		}
+	}
+
 	rawVPs := make([]interface{}, len(vpList))
 
 	for vpIdx, vp := range vpList {
-- 
2.43.0


From a2ff7b614f36ab4d0edaf3b740258552730e98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 43/58] fix: disclose exactly what the fields of limited
 disclosure select

List elements that different fields select no longer end up in one place, nor
subjects of a list in another's; names with characters that are special in
gjson and sjson paths select themselves; paths are read as in the filters;
predicates replace the right element; and an SD-JWT credential gives the
disclosures of the selected values only, wherever they are, without a change
of the holder's credential.
---
 presexch/definition.go | 574 +++++++++++++++++++++++++----------------
 1 file changed, 349 insertions(+), 225 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 5f53cb5..13db6b4 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -7,30 +7,27 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
+	"slices"
 	"sort"
-	"strconv"
 	"strings"
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
-	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
-	jsonutil "github.com/trustbloc/vc-go/util/json"
 
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -47,7 +44,8 @@ const (
 
 	tmpEnding = "tmp_unique_id_"
 
-	credentialSchema = "credentialSchema"
+	credentialSchema  = "credentialSchema"
+	credentialSubject = "credentialSubject"
 
 	// FormatJWT presentation exchange format.
 	FormatJWT = "jwt"
@@ -329,7 +327,7 @@ func (pd *PresentationDefinition) checkDescriptorIDs() error {
 
 type constraintsFilterResult struct {
 	credential    *verifiable.Credential
-	credentialSrc []byte
+	credentialMap map[string]interface{}
 	constraints   *Constraints
 }
 
@@ -1026,7 +1024,7 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 
 		filterRes := constraintsFilterResult{
 			credential:    credential,
-			credentialSrc: credentialSrc,
+			credentialMap: credentialMap,
 			constraints:   constraints,
 		}
 
@@ -1046,7 +1044,6 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		credentialContents := credential.Contents()
 
 		constraints := filtered.constraints
-		credentialSrc := filtered.credentialSrc
 
 		if constraints == nil {
 			result = append(result, &credWrapper{uniqueID: credentialContents.ID, vc: credential})
@@ -1072,32 +1069,19 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 		//nolint:nestif
 		if (constraints.LimitDisclosure.isRequired() || predicate) &&
 			!isSDJWTCredential(&credentialContents) {
-			template := credentialSrc
+			template := filtered.credentialMap
 
 			if constraints.LimitDisclosure.isRequired() {
-				var (
-					contexts []interface{}
-					err      error
-				)
+				template = map[string]interface{}{}
 
-				for _, ctx := range credentialContents.Context {
-					contexts = append(contexts, ctx)
+				for _, name := range [...]string{"id", "type", "@context", "issuer", "issuanceDate"} {
+					if v, ok := filtered.credentialMap[name]; ok {
+						template[name] = v
+					}
 				}
 
-				contexts = append(contexts, credentialContents.CustomContext...)
-
-				templateObj := jsonutil.Select(credential.ToRawJSON(),
-					"id",
-					"type",
-					"@context",
-					"issuer",
-					"issuanceDate")
-
-				templateObj["credentialSubject"] = copyOnlySubjectIDs(credentialContents.Subject)
-
-				template, err = json.Marshal(templateObj)
-				if err != nil {
-					return nil, err
+				if v, ok := filtered.credentialMap[credentialSubject]; ok {
+					template[credentialSubject] = copyOnlySubjectIDs(v)
 				}
 			}
 
@@ -1106,7 +1090,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			isJWTVC := credential.IsJWT()
 
 			credential, err = createNewCredential(constraints,
-				credentialSrc, template, credential, sdBBSProofCreator, opts...)
+				filtered.credentialMap, template, credential, sdBBSProofCreator, opts...)
 			if err != nil {
 				return nil, fmt.Errorf("create new credential: %w", err)
 			}
@@ -1127,15 +1111,22 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 
 		// SDJWT case.
 		if constraints.LimitDisclosure.isRequired() && isSDJWTCredential(&credentialContents) {
-			limitedDisclosures, err := getLimitedDisclosures(constraints, credentialSrc, credential)
+			limitedDisclosures, err := getLimitedDisclosures(constraints, filtered.credentialMap, credential)
 			if err != nil {
 				return nil, err
 			}
 
-			err = credential.SetSDJWTDisclosures(limitedDisclosures)
+			// other descriptors may need other disclosures of the credential.
+			limitedCred, envelope := *credential, *credential.JWTEnvelope
+			limitedCred.JWTEnvelope = &envelope
+
+			err = limitedCred.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
 			}
+
+			credential = &limitedCred
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
@@ -1144,72 +1135,143 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 	return result, nil
 }
 
-// nolint: gocyclo,funlen,gocognit
-func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
+// getLimitedDisclosures returns the disclosures for what the fields select, and for what that is part of.
+func getLimitedDisclosures(constraints *Constraints, displayed map[string]interface{}, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
+	var selected [][]interface{}
+
+	for _, f := range constraints.Fields {
+		jPaths, err := selectPaths(f, credential.IsJWT(), displayed)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, path := range jPaths {
+			selected = append(selected, path.oldPath)
+		}
+	}
+
 	credentialContents := credential.Contents()
 
+	disclosures := map[string]*common.DisclosureClaim{}
+
+	for _, dc := range credential.SDJWTDisclosures() {
+		digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
+		if err != nil {
+			return nil, err
+		}
+
+		disclosures[digest] = dc
+	}
+
 	credentialSrc, err := credential.MarshalAsJSONLD()
 	if err != nil {
 		return nil, err
 	}
 
-	var limitedDisclosures []*common.DisclosureClaim
+	var credentialMap map[string]interface{}
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
+	if err = json.Unmarshal(credentialSrc, &credentialMap); err != nil {
+		return nil, err
+	}
+
+	needed := map[*common.DisclosureClaim]bool{}
+
+	_, err = visitDisclosures(credentialMap, nil, disclosures, func(dc *common.DisclosureClaim, path []interface{}) {
+		for _, sel := range selected {
+			n := min(len(sel), len(path))
+
+			if slices.Equal(sel[:n], path[:n]) {
+				needed[dc] = true
+			}
+		}
+	})
+	if err != nil {
+		return nil, err
+	}
+
+	return lo.Filter(credential.SDJWTDisclosures(), func(dc *common.DisclosureClaim, _ int) bool {
+		return needed[dc]
+	}), nil
+}
+
+// visitDisclosures calls visit with all the disclosures that the value refers to, and where their values are displayed.
+// It returns whether the value itself is displayed.
+func visitDisclosures(value interface{}, path []interface{}, disclosures map[string]*common.DisclosureClaim,
+	visit func(*common.DisclosureClaim, []interface{})) (bool, error) {
+	below := func(value, key interface{}) (bool, error) {
+		return visitDisclosures(value, append(slices.Clone(path), key), disclosures, visit)
+	}
+
+	disclose := func(dc *common.DisclosureClaim, key interface{}) error {
+		visit(dc, append(slices.Clone(path), key))
+
+		decoded, err := base64.RawURLEncoding.DecodeString(dc.Disclosure)
 		if err != nil {
-			return nil, err
+			return fmt.Errorf("decode disclosure: %w", err)
 		}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+		var elements []interface{}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+		if err = json.Unmarshal(decoded, &elements); err != nil {
+			return fmt.Errorf("unmarshal disclosure: %w", err)
+		}
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
-			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
-				continue
-			}
+		_, err = below(elements[len(elements)-1], key)
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
-			}
+		return err
+	}
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+	switch v := value.(type) {
+	case []interface{}:
+		index := 0
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
-			}
+		for _, element := range v {
+			if obj, ok := element.(map[string]interface{}); ok && len(obj) == 1 {
+				if digest, ok := obj[common.ArrayElementDigestKey].(string); ok {
+					if dc, ok := disclosures[digest]; ok {
+						if err := disclose(dc, index); err != nil {
+							return false, err
+						}
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
+						index++
+					}
+
+					continue
 				}
 			}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+			displayed, err := below(element, index)
+			if err != nil {
+				return false, err
+			}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
+			if displayed {
+				index++
+			}
+		}
+
+		return index > 0 || len(v) == 0, nil
+	case map[string]interface{}:
+		digests, _ := v[common.SDKey].([]interface{}) //nolint:errcheck
+
+		for _, digest := range digests {
+			if name, ok := digest.(string); ok {
+				if dc, ok := disclosures[name]; ok {
+					if err := disclose(dc, dc.Name); err != nil {
+						return false, err
 					}
 				}
 			}
 		}
+
+		for name, member := range v {
+			if _, err := below(member, name); err != nil {
+				return false, err
+			}
+		}
 	}
 
-	return limitedDisclosures, nil
+	return true, nil
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1257,22 +1319,40 @@ func frameCreds(frame map[string]interface{}, creds []*verifiable.Credential,
 	return result, nil
 }
 
-func copyOnlySubjectIDs(subject []verifiable.Subject) interface{} {
-	if len(subject) == 1 {
-		if len(subject[0].CustomFields) == 0 {
-			return subject[0].ID
+func copyOnlySubjectIDs(subject interface{}) interface{} {
+	switch s := subject.(type) {
+	case map[string]interface{}:
+		if id, ok := s["id"].(string); ok && len(s) == 1 {
+			return id
 		}
 
-		return verifiable.SubjectToJSON(verifiable.Subject{ID: subject[0].ID})
+		return copyOnlyID(s)
+	case []interface{}:
+		withOnlyIDs := make([]interface{}, len(s))
+
+		for i := range s {
+			withOnlyIDs[i] = copyOnlyID(s[i])
+		}
+
+		return withOnlyIDs
+	default:
+		return subject
+	}
+}
+
+func copyOnlyID(subject interface{}) interface{} {
+	s, ok := subject.(map[string]interface{})
+	if !ok {
+		return subject
 	}
 
-	var withOnlyIDs []interface{}
+	withOnlyID := map[string]interface{}{}
 
-	for _, s := range subject {
-		withOnlyIDs = append(withOnlyIDs, verifiable.SubjectToJSON(verifiable.Subject{ID: s.ID}))
+	if id, ok := s["id"]; ok {
+		withOnlyID["id"] = id
 	}
 
-	return withOnlyIDs
+	return withOnlyID
 }
 
 func tmpID(id string) string {
@@ -1280,170 +1360,240 @@ func tmpID(id string) string {
 }
 
 // nolint: funlen,gocognit,gocyclo
-func createNewCredential(constraints *Constraints, src, limitedCred []byte,
+func createNewCredential(constraints *Constraints, src, limitedCred map[string]interface{},
 	credential *verifiable.Credential, sdBBSProofCreator *verifiable.BBSProofCreator,
 	opts ...verifiable.CredentialOpt) (*verifiable.Credential, error) {
 	var (
-		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
+		limited             = constraints.LimitDisclosure.isRequired()
+		doBBS               = hasBBS(credential) && limited
 		modifiedByPredicate bool
-		explicitPaths       = make(map[string]bool)
+		explicitPaths       [][]interface{}
+		selected            []*selectedPath
 	)
 
 	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
+		jPaths, err := selectPaths(f, credential.IsJWT(), src)
 		if err != nil {
 			return nil, err
 		}
 
 		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
+			if len(path.oldPath) > 0 && path.oldPath[0] == credentialSchema {
 				continue
 			}
 
-			var val interface{} = true
-
 			if f.Predicate.isRequired() {
+				path.value = true
 				modifiedByPredicate = true
-			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
-			}
-
-			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
-				explicitPaths[explicitPath] = true
 			}
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
+			if f.Predicate.isRequired() || limited {
+				selected = append(selected, path)
 			}
 		}
 	}
 
-	if !doBBS || modifiedByPredicate {
-		opts = append(opts, verifiable.WithDisabledProofCheck())
-		return verifiable.ParseCredential(limitedCred, opts...)
+	if limited {
+		compactArrayPaths(selected, limitedCred)
 	}
 
-	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
-	if err != nil {
-		return nil, err
-	}
+	var newCred interface{} = limitedCred
 
-	var doc map[string]interface{}
-	if err := json.Unmarshal(revealDoc, &doc); err != nil {
-		return nil, err
-	}
+	for _, path := range selected {
+		if doBBS && len(path.newPath) > 0 {
+			explicitPaths = append(explicitPaths, path.newPath[:len(path.newPath)-1])
+		}
 
-	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
-}
+		newCred = setValue(newCred, path.newPath, path.value)
+	}
 
-// splitLast finds the final occurrence of split in text, and returns (everything before, everything after).
-// If split is not found in text, then splitLast returns ("", text).
-func splitLast(text, split string) (string, string) {
-	lastIndex := strings.LastIndex(text, split)
-	if lastIndex < 0 {
-		return "", text
+	limitedCred, ok := newCred.(map[string]interface{})
+	if !ok {
+		return nil, errors.New("fields select the whole credential")
 	}
 
-	return text[:lastIndex], text[lastIndex+len(split):]
-}
+	if doBBS && !modifiedByPredicate {
+		enhanceRevealDoc(explicitPaths, limitedCred, src)
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
-		return nil, err
+		return credential.GenerateBBSSelectiveDisclosure(limitedCred, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
 	}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
+	limitedBytes, err := json.Marshal(limitedCred)
 	if err != nil {
 		return nil, err
 	}
 
-	var jPaths []*pathTransform
+	opts = append(opts, verifiable.WithDisabledProofCheck())
 
-	set := map[string]int{}
+	return verifiable.ParseCredential(limitedBytes, opts...)
+}
 
-	for {
-		result, ok := eval.Next()
-		if !ok {
-			break
+// selectPaths finds what the paths of the field select in the credential.
+func selectPaths(field *Field, isJWTCredential bool, credential map[string]interface{}) ([]*selectedPath, error) {
+	var selected []*selectedPath
+
+	for _, path := range field.Path {
+		pathParsed, err := parseFieldPath(isJWTCredential, path, credential)
+		if err != nil {
+			return nil, err
 		}
 
-		jPaths = append(jPaths, getPath(result.Keys, set))
-	}
+		for _, node := range pathParsed.SelectLocated(credential) {
+			sel := &selectedPath{value: node.Node}
 
-	return jPaths, nil
-}
+			for _, k := range node.Path {
+				switch v := k.(type) {
+				case spec.Index:
+					sel.oldPath = append(sel.oldPath, int(v))
+				case spec.Name:
+					sel.oldPath = append(sel.oldPath, string(v))
+				}
+			}
 
-func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
+			sel.newPath = sel.oldPath
 
-	revealDoc, err = sjson.SetBytes(revealDoc, "@explicit", true)
-	if err != nil {
-		return nil, err
+			selected = append(selected, sel)
+		}
 	}
 
-	intermPaths := make(map[string]bool)
+	return selected, nil
+}
 
-	for path := range explicitPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
+// compactArrayPaths adjusts array indices in the given paths, as if the corresponding JSON object has all
+// unmentioned array elements removed. Arrays in values that are kept whole stay as they are: other selected values and
+// the members of the envelope. The envelope has all of the subjects, though with their IDs only.
+func compactArrayPaths(selected []*selectedPath, envelope map[string]interface{}) {
+	subjects := pathKey([]interface{}{credentialSubject})
+	whole := map[string]bool{}
+	elements := map[string][]int{}
+
+	for name := range envelope {
+		if name != credentialSubject {
+			whole[pathKey([]interface{}{name})] = true
 		}
+	}
 
-		pathParts := strings.Split(path, ".")
-		combinedPath := ""
+	for _, sel := range selected {
+		whole[pathKey(sel.oldPath)] = true
+	}
 
-		for i := range len(pathParts) - 1 {
-			if i == 0 {
-				combinedPath = pathParts[0]
-			} else {
-				combinedPath += "." + pathParts[i]
+	// visit calls f for all the indices of the path that are in arrays with elements removed.
+	visit := func(path []interface{}, f func(i int, array string, index int)) {
+		for i, k := range path {
+			array := pathKey(path[:i])
+			if whole[array] {
+				return
 			}
 
-			if _, ok := explicitPaths[combinedPath]; !ok {
-				intermPaths[combinedPath] = false
+			if index, ok := k.(int); ok && array != subjects {
+				f(i, array, index)
 			}
 		}
 	}
 
-	for path := range intermPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
+	for _, sel := range selected {
+		visit(sel.oldPath, func(_ int, array string, index int) {
+			if !slices.Contains(elements[array], index) {
+				elements[array] = append(elements[array], index)
+			}
+		})
+	}
+
+	for _, indices := range elements {
+		slices.Sort(indices)
+	}
+
+	for _, sel := range selected {
+		sel.newPath = slices.Clone(sel.oldPath)
+
+		visit(sel.oldPath, func(i int, array string, index int) {
+			sel.newPath[i] = slices.Index(elements[array], index)
+		})
+	}
+}
+
+// setValue sets the value at the given path of a JSON document, and returns the document.
+func setValue(doc interface{}, path []interface{}, value interface{}) interface{} {
+	if len(path) == 0 {
+		return value
+	}
+
+	switch k := path[0].(type) {
+	case int:
+		array, _ := doc.([]interface{}) //nolint:errcheck
+
+		for len(array) <= k {
+			array = append(array, nil)
+		}
+
+		array[k] = setValue(array[k], path[1:], value)
+
+		return array
+	case string:
+		obj, ok := doc.(map[string]interface{})
+		if !ok {
+			obj = map[string]interface{}{}
 		}
+
+		obj[k] = setValue(obj[k], path[1:], value)
+
+		return obj
 	}
 
-	return revealDoc, nil
+	return doc
 }
 
-func enhanceRevealField(path string, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
+// pathKey returns a text that is different for different paths.
+func pathKey(path []interface{}) string {
+	var builder strings.Builder
 
-	revealDoc, err = sjson.SetBytes(revealDoc, path+".@explicit", true)
-	if err != nil {
-		return nil, err
+	for _, k := range path {
+		builder.WriteString(fmt.Sprintf("[%#v]", k))
 	}
 
-	for _, cf := range [...]string{"type", "@context"} {
-		specialFieldPath := path + "." + cf
+	return builder.String()
+}
 
-		specialFieldValue := gjson.GetBytes(vcBytes, specialFieldPath)
-		if specialFieldValue.Type == gjson.Null {
-			continue
+// enhanceRevealDoc adds to the reveal document what the framing needs in the objects on the given paths.
+func enhanceRevealDoc(explicitPaths [][]interface{}, revealDoc, credential map[string]interface{}) {
+	revealDoc["@explicit"] = true
+
+	for _, path := range explicitPaths {
+		var reveal, value interface{} = revealDoc, credential
+
+		for _, k := range path {
+			reveal, value = child(reveal, k), child(value, k)
+
+			revealObj, ok := reveal.(map[string]interface{})
+			if !ok {
+				continue
+			}
+
+			revealObj["@explicit"] = true
+
+			for _, cf := range [...]string{"type", "@context"} {
+				if v := child(value, cf); v != nil {
+					revealObj[cf] = v
+				}
+			}
 		}
+	}
+}
 
-		revealDoc, err = sjson.SetBytes(revealDoc, specialFieldPath, specialFieldValue.Value())
-		if err != nil {
-			return nil, err
+// child returns the member or element of the value, or nil.
+func child(value, key interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		if name, ok := key.(string); ok {
+			return v[name]
+		}
+	case []interface{}:
+		if index, ok := key.(int); ok && index < len(v) {
+			return v[index]
 		}
 	}
 
-	return revealDoc, nil
+	return nil
 }
 
 func hasBBS(vc *verifiable.Credential) bool {
@@ -1525,14 +1675,8 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+// parseFieldPath parses the path of a field, for the given credential.
+func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1555,11 +1699,9 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, errors.New("expected $ or @ at start of path")
 	}
 
-	var pathParsed *pathv2.Path
-
 	var pathErr error
 
 	for _, p := range []string{
@@ -1568,19 +1710,26 @@ func checkPathValue(
 		convertToRFC9535Format(path), // Remove in 6months and update profiles presentations to use RFC 9535 format
 	} {
 		parsed, parseErr := pathv2.Parse(p)
-
-		pathParsed = parsed
-
 		if parseErr == nil {
-			pathErr = nil
-			break
+			return parsed, nil
 		}
 
 		pathErr = errors.Join(pathErr, fmt.Errorf("path %s: %w", p, parseErr))
 	}
 
-	if pathErr != nil {
-		return pathErr
+	return nil, pathErr
+}
+
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, err := parseFieldPath(isJWTCredential, path, credential)
+	if err != nil {
+		return err
 	}
 
 	selected := pathParsed.Select(credential)
@@ -1677,37 +1826,12 @@ func isDateField(paths []string) bool {
 	return false
 }
 
-type pathTransform struct {
-	newPath string
-	oldPath string
-}
-
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
-
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
-
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
-
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
-		}
-	}
-
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
+// selectedPath is a value that a field selects: where it is, where it goes to and what it is.
+type selectedPath struct {
+	newPath   []interface{}
+	oldPath   []interface{}
+	value     interface{}
+	predicate bool
 }
 
 //nolint:funlen
-- 
2.43.0


From a7a9914271435c75e9d439d824c83df324ff448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 44/58] fix: restore holder and identifier of minimized CBOR
 presentations

---
 verifiable/presentation_parser.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 927f694..ec2f7e5 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -18,6 +18,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
@@ -154,8 +155,8 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	convertedMap := convertToStringMap(vpMap)
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
-	if !ok {
-		// do nothing
+	if ok {
+		vpContent = refineFromCWTClaims(vpContent, convertedMap)
 	}
 
 	return &parsePresentationResponse{
@@ -170,6 +171,25 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	}, nil
 }
 
+// refineFromCWTClaims restores the holder and identifier that a minimized presentation carries in its
+// registered claims only.
+func refineFromCWTClaims(vpContent rawPresentation, claims map[string]interface{}) rawPresentation {
+	refined := jsonutil.ShallowCopyObj(vpContent)
+
+	for claim, field := range map[string]string{"iss": vpFldHolder, "jti": vpFldID} {
+		val, ok := claims[claim].(string)
+		if !ok || val == "" {
+			continue
+		}
+
+		if _, exists := refined[field]; !exists {
+			refined[field] = val
+		}
+	}
+
+	return refined
+}
+
 func (p *PresentationCWTParser) checkProof(message *cose.Sign1Message, vpOpts *presentationOpts) error {
 	if vpOpts.disabledProofCheck {
 		return nil
-- 
2.43.0


From 13739f7afaf1b2218f86fc6fa6bd7037977ba303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 45/58] fix: refuse CBOR maps with keys of the same text form

---
 verifiable/credential_parser.go   | 34 +++++++++++++++++++++++--------
 verifiable/presentation_cwt.go    |  7 ++++++-
 verifiable/presentation_parser.go |  5 ++++-
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..166baf9 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -115,30 +115,45 @@ type CredentialCBORParser struct{}
 
 func convertToStringMap(
 	input map[interface{}]interface{},
-) map[string]interface{} {
+) (map[string]interface{}, error) {
 	out := map[string]interface{}{}
 
 	for k, v := range input {
 		key := fmt.Sprintf("%v", k)
 
-		out[key] = convertElement(v)
+		// Keys of different types can have the same text form, in this case it's ambiguous which value is meant.
+		if _, exists := out[key]; exists {
+			return nil, fmt.Errorf("ambiguous cbor map key %q", key)
+		}
+
+		elem, err := convertElement(v)
+		if err != nil {
+			return nil, err
+		}
+
+		out[key] = elem
 	}
 
-	return out
+	return out, nil
 }
 
-func convertElement(element interface{}) interface{} {
+func convertElement(element interface{}) (interface{}, error) {
 	switch elem := element.(type) {
 	case map[interface{}]interface{}:
 		return convertToStringMap(elem)
 	case []interface{}:
 		for i, v := range elem {
-			elem[i] = convertElement(v)
+			converted, err := convertElement(v)
+			if err != nil {
+				return nil, err
+			}
+
+			elem[i] = converted
 		}
 
-		return elem
+		return elem, nil
 	default:
-		return elem
+		return elem, nil
 	}
 }
 
@@ -190,7 +205,10 @@ func (p *CredentialCBORParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.New("vc field not found in cbor credential")
 	}
 
-	convertedMap := convertToStringMap(vcDataMap)
+	convertedMap, err := convertToStringMap(vcDataMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor credential: %w", err)
+	}
 
 	contents, err := parseCredentialContents(convertedMap, false)
 	if err != nil {
diff --git a/verifiable/presentation_cwt.go b/verifiable/presentation_cwt.go
index e9b6018..6e18c35 100644
--- a/verifiable/presentation_cwt.go
+++ b/verifiable/presentation_cwt.go
@@ -65,12 +65,17 @@ func (vp *Presentation) CreateCWTVP(
 		return nil, fmt.Errorf("failed to unmarshal VP map: %w", err)
 	}
 
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("failed to convert VP map: %w", err)
+	}
+
 	vp2 := vp.Clone()
 
 	vp2.CWT = &VpCWT{
 		Raw:     cwtBytes,
 		Message: msg,
-		VPMap:   convertToStringMap(vpMap),
+		VPMap:   convertedMap,
 	}
 
 	vp2.JWT = ""
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index ec2f7e5..1b5f8d0 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -152,7 +152,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
 	}
 
-	convertedMap := convertToStringMap(vpMap)
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("convert cbor vp payload: %w", err)
+	}
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if ok {
-- 
2.43.0


From e525b47dd8314b7b0d3069b14c1bc48be54ee0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 46/58] fix: in-memory store query with two conditions on one
 tag name applies both

---
 legacy/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..6b143ab 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -287,14 +287,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
-- 
2.43.0


From fe66797f6077ea9b57d073fde362c0a6e94075c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 47/58] fix: reading an in-memory store's configuration takes
 the provider's lock

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 6b143ab..9545d5a 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From 9d7fb3038466e625043cb1e975561fed8b372799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 48/58] fix: numbers of decoded tokens are numbers to
 encoding/json too

---
 jwt/jwt.go | 59 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/jwt/jwt.go b/jwt/jwt.go
index 39c64a0..1225734 100644
--- a/jwt/jwt.go
+++ b/jwt/jwt.go
@@ -9,6 +9,7 @@ package jwt
 import (
 	"bytes"
 	"encoding/base64"
+	stdjson "encoding/json"
 	"errors"
 	"fmt"
 	"reflect"
@@ -164,7 +165,7 @@ func CheckProof(jwtSerialized string, proofChecker ProofChecker,
 
 // DecodeClaims fills input c with claims of a token.
 func (j *JSONWebToken) DecodeClaims(c interface{}) error {
-	pBytes, err := json.Marshal(j.Payload)
+	pBytes, err := json.Marshal(joseNumbers(j.Payload))
 	if err != nil {
 		return err
 	}
@@ -261,7 +262,7 @@ func NewJoseSigned(claims interface{}, headers jose.Headers, signer jose.Signer)
 		return nil, fmt.Errorf("unmarshallable claims: %w", err)
 	}
 
-	payloadBytes, err := json.Marshal(payloadMap)
+	payloadBytes, err := json.Marshal(joseNumbers(payloadMap))
 	if err != nil {
 		return nil, fmt.Errorf("marshal JWT claims: %w", err)
 	}
@@ -395,5 +396,59 @@ func PayloadToMap(i interface{}) (map[string]interface{}, error) {
 		return nil, fmt.Errorf("convert to map: %w", err)
 	}
 
+	for k, v := range m {
+		m[k] = plainNumbers(v)
+	}
+
 	return m, nil
 }
+
+// joseNumbers returns claims with their numbers in the form which the JSON package of go-jose marshals as numbers.
+func joseNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case stdjson.Number:
+		return json.Number(v)
+	case map[string]interface{}:
+		if v == nil {
+			return value
+		}
+
+		m := make(map[string]interface{}, len(v))
+		for k := range v {
+			m[k] = joseNumbers(v[k])
+		}
+
+		return m
+	case []interface{}:
+		if v == nil {
+			return value
+		}
+
+		l := make([]interface{}, len(v))
+		for i := range v {
+			l[i] = joseNumbers(v[i])
+		}
+
+		return l
+	}
+
+	return value
+}
+
+// plainNumbers replaces the numbers of a decoded claim, which encoding/json would marshal as strings.
+func plainNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		return stdjson.Number(v)
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = plainNumbers(v[k])
+		}
+	case []interface{}:
+		for i := range v {
+			v[i] = plainNumbers(v[i])
+		}
+	}
+
+	return value
+}
-- 
2.43.0


From fc4047d290464446469819ca143e1d755c760038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:33 +0000
Subject: [PATCH 49/58] fix: no signer stands for the reserved CWT algorithm

---
 proof/creator/creator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 02ef155..a59b3f4 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -205,7 +205,8 @@ func (c *ProofCreator) getSupportedProof(proofType string) (ldProofCreateDescrip
 
 func (c *ProofCreator) getSupportedProofByCwtAlg(cwtAlg cose.Algorithm) (jwtProofCreateDescriptor, error) {
 	for _, supported := range c.supportedJWTAlgs {
-		if supported.proofDescriptor.CWTAlgorithm() == cwtAlg {
+		// Descriptors without a CWT algorithm return the reserved value, which must not select them.
+		if cwtAlg != cose.AlgorithmReserved && supported.proofDescriptor.CWTAlgorithm() == cwtAlg {
 			return supported, nil
 		}
 	}
-- 
2.43.0


From 5221287f550927cf01773075ee981631d8d06fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 50/58] fix: a data integrity proof is verified with its own
 domain and challenge

---
 dataintegrity/verifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index ae49638..c263705 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -184,8 +184,6 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
-	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
-
 	if opts.Domain != "" && opts.Domain != proof.Domain {
 		return ErrInvalidDomain
 	}
@@ -194,5 +192,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return ErrInvalidChallenge
 	}
 
-	return verifyResult
+	// The signature covers the domain and challenge of the proof, expected or not.
+	opts.Domain = proof.Domain
+	opts.Challenge = proof.Challenge
+
+	return verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 }
-- 
2.43.0


From 64aab069768e4015b0f441a714fe126e1fb27815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:36 +0000
Subject: [PATCH 51/58] fix: a presentation keeps the members of its holder
 object

---
 verifiable/presentation.go        | 26 ++++++++++++++++++++++++--
 verifiable/presentation_jwt.go    | 21 ++++++++++++++++++++-
 verifiable/presentation_parser.go |  4 ++++
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 2952a2f..23a50cf 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -349,6 +349,9 @@ type Presentation struct {
 	CWT           *VpCWT
 
 	CustomFields CustomFields
+
+	// holderObject is the holder as it was parsed, if it was an object.
+	holderObject JSONObject
 }
 
 // NewPresentation creates a new Presentation with default context and type with the provided credentials.
@@ -508,8 +511,8 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 		rp[vpFldType] = serializeTypes(vp.Type)
 	}
 
-	if len(vp.Holder) > 0 {
-		rp[vpFldHolder] = vp.Holder
+	if holder := vp.rawHolder(); holder != nil {
+		rp[vpFldHolder] = holder
 	}
 
 	if len(vp.Proofs) > 0 {
@@ -539,6 +542,21 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	return rp, nil
 }
 
+// rawHolder returns the holder as an object if it was parsed from one and is still the same holder.
+func (vp *Presentation) rawHolder() interface{} {
+	if vp.holderObject != nil {
+		if id, err := decodeHolder(vp.holderObject); err == nil && id == vp.Holder {
+			return jsonutil.ShallowCopyObj(vp.holderObject)
+		}
+	}
+
+	if vp.Holder == "" {
+		return nil
+	}
+
+	return vp.Holder
+}
+
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
@@ -552,6 +570,7 @@ func (vp *Presentation) Clone() *Presentation {
 		CustomFields:  vp.CustomFields,
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
+		holderObject:  vp.holderObject,
 	}
 }
 
@@ -857,6 +876,8 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		return nil, fmt.Errorf("fill presentation holder from raw: %w", err)
 	}
 
+	holderObject, _ := vpRaw[vpFldHolder].(JSONObject)
+
 	if err = executeChecks(vpOpts, proofs, creds, holder); err != nil {
 		return nil, err
 	}
@@ -869,6 +890,7 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		credentials:   creds,
 		Holder:        holder,
 		Proofs:        proofs,
+		holderObject:  holderObject,
 		CustomFields: jsonutil.CopyExcept(vpRaw,
 			vpFldContext,
 			vpFldID,
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index 8457fd7..acd1696 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
 // JWTPresClaims is JWT Claims extension by Verifiable Presentation (with custom "vp" claim).
@@ -29,7 +30,7 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	raw := jpc.Presentation
 
 	if jpc.Issuer != "" {
-		raw[vpFldHolder] = jpc.Issuer
+		raw[vpFldHolder] = holderWithID(raw[vpFldHolder], jpc.Issuer)
 	}
 
 	if jpc.ID != "" {
@@ -37,6 +38,19 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	}
 }
 
+// holderWithID sets the identifier of the holder, keeping the other members of a holder object.
+func holderWithID(holder interface{}, id string) interface{} {
+	holderObject, ok := holder.(JSONObject)
+	if !ok {
+		return id
+	}
+
+	holderObject = jsonutil.ShallowCopyObj(holderObject)
+	holderObject[vpFldID] = id
+
+	return holderObject
+}
+
 // newJWTPresClaims creates JWT Claims of VP with an option to minimize certain fields put into "vp" claim.
 func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JWTPresClaims, error) {
 	// currently jwt encoding supports only single subject.([]Subject) (by the spec)
@@ -57,6 +71,11 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 		vpCopy := *vp
 		vpCopy.ID = ""
 		vpCopy.Holder = ""
+
+		if vp.Holder != "" && vp.holderObject != nil {
+			vpCopy.holderObject = jsonutil.CopyExcept(vp.holderObject, vpFldID)
+		}
+
 		rawVP, err = vpCopy.raw()
 	} else {
 		rawVP, err = vp.raw()
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 1b5f8d0..85a8e8a 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -185,8 +185,12 @@ func refineFromCWTClaims(vpContent rawPresentation, claims map[string]interface{
 			continue
 		}
 
+		holder, isObject := refined[field].(JSONObject)
+
 		if _, exists := refined[field]; !exists {
 			refined[field] = val
+		} else if _, hasID := holder[vpFldID]; field == vpFldHolder && isObject && !hasID {
+			refined[field] = holderWithID(holder, val)
 		}
 	}
 
-- 
2.43.0


From 08d3b1d2ccfec6f21b68d1c2b6146095c9c49261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:19 +0000
Subject: [PATCH 52/58] fix: claims with names reserved for selective
 disclosure are refused when issuing

---
 sdjwt/issuer/issuer.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..d91468f 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -48,6 +48,7 @@ import (
 	"errors"
 	"fmt"
 	mathrand "math/rand"
+	"reflect"
 	"strings"
 	"time"
 
@@ -367,10 +368,9 @@ func New(issuer string, claims interface{}, headers jose.Headers,
 		return nil, fmt.Errorf("convert payload to map: %w", err)
 	}
 
-	// check for the presence of the _sd claim in claims map
-	found := common.KeyExistsInMap(common.SDKey, claimsMap)
-	if found {
-		return nil, fmt.Errorf("key '%s' cannot be present in the claims", common.SDKey)
+	// check for the presence of names that have a meaning of their own in claims map
+	if key, found := findReservedKey(reflect.ValueOf(claimsMap)); found {
+		return nil, fmt.Errorf("key '%s' cannot be present in the claims", key)
 	}
 
 	sdJWTBuilder := getBuilderByVersion(nOpts.version)
@@ -469,6 +469,33 @@ func NewFromVC(vc map[string]interface{}, headers jose.Headers,
 	return sdJWT, nil
 }
 
+// findReservedKey looks for a name that is reserved for selective disclosure, at any depth.
+func findReservedKey(value reflect.Value) (string, bool) {
+	switch value.Kind() {
+	case reflect.Interface:
+		return findReservedKey(value.Elem())
+	case reflect.Slice, reflect.Array:
+		for i := range value.Len() {
+			if key, found := findReservedKey(value.Index(i)); found {
+				return key, true
+			}
+		}
+	case reflect.Map:
+		for _, name := range value.MapKeys() {
+			switch key := name.String(); key {
+			case common.SDKey, common.SDAlgorithmKey, common.ArrayElementDigestKey:
+				return key, true
+			}
+
+			if key, found := findReservedKey(value.MapIndex(name)); found {
+				return key, true
+			}
+		}
+	}
+
+	return "", false
+}
+
 func createPayload(issuer string, nOpts *newOpts) *payload {
 	var cnf map[string]interface{}
 	if nOpts.HolderPublicKey != nil {
-- 
2.43.0


From f836531cdf0007d38f39a94088bc4519db721525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:59 +0000
Subject: [PATCH 53/58] fix: refuse statements that a BBS+ signature proof does
 not reveal

The proof is checked against as many messages as it reveals, so a document
with further statements after those was accepted although nobody signed them.
---
 crypto-ext/verifiers/bbs/verifier.go | 41 ++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..4e357ce 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,6 +8,7 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"strings"
@@ -93,8 +94,44 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	// The proof covers the revealed messages only, any message beyond them would be left unchecked.
+	if revealed, ok := revealedCount(signature); ok && revealed < len(messages) {
+		return fmt.Errorf("proof reveals %d messages, got %d", revealed, len(messages))
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// revealedCount gives the number of messages that the signature proof reveals: the proof starts with the number
+// of signed messages, followed by a bit vector (last byte first) of the revealed ones.
+func revealedCount(signatureProof []byte) (int, bool) {
+	const (
+		countLen = 2
+		byteBits = 8
+	)
+
+	if len(signatureProof) < countLen {
+		return 0, false
+	}
+
+	messagesCount := int(binary.BigEndian.Uint16(signatureProof))
+	vectorEnd := countLen + messagesCount/byteBits + 1
+
+	if len(signatureProof) < vectorEnd {
+		return 0, false
+	}
+
+	revealed := 0
+
+	for i := 0; i < messagesCount; i++ {
+		if signatureProof[vectorEnd-1-i/byteBits]>>(i%byteBits)&1 == 1 {
+			revealed++
+		}
+	}
+
+	return revealed, true
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From 2ef67f53f40b1002d66c08927e75f20f5155f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:11 +0000
Subject: [PATCH 54/58] fix: a malformed BBS+ signature proof is an error

The BBS+ library panics on proofs that are cut short or state wrong lengths.
---
 crypto-ext/verifiers/bbs/verifier.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 4e357ce..1771dea 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -77,8 +77,6 @@ type G2SignatureProofVerifier struct {
 // Verify verifies the signature.
 func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pubkey.PublicKey,
 	proof *proof.Proof) error {
-	bbs := bbs12381g2pub.New()
-
 	bytesKey := pubKeyValue.BytesKey
 
 	if bytesKey == nil && pubKeyValue.JWK != nil {
@@ -101,7 +99,18 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return fmt.Errorf("proof reveals %d messages, got %d", revealed, len(messages))
 	}
 
-	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	return verifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// verifyProof reports a malformed signature proof, which the BBS+ library panics on, as an error.
+func verifyProof(messages [][]byte, signatureProof, nonce, pubKey []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed signature proof: %v", r)
+		}
+	}()
+
+	return bbs12381g2pub.New().VerifyProof(messages, signatureProof, nonce, pubKey)
 }
 
 // revealedCount gives the number of messages that the signature proof reveals: the proof starts with the number
-- 
2.43.0


From e8971c0966547b2d1f53628ca0c5f72774a3f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 55/58] fix: limited disclosure of a BBS+ credential reveals no
 unselected subject members

---
 presexch/definition.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index 13db6b4..dc0cee7 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -11,6 +11,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
 	"slices"
 	"sort"
 	"strings"
@@ -1558,6 +1559,11 @@ func pathKey(path []interface{}) string {
 func enhanceRevealDoc(explicitPaths [][]interface{}, revealDoc, credential map[string]interface{}) {
 	revealDoc["@explicit"] = true
 
+	// without a selected path into it, a subject is revealed as its identifier only.
+	if subject, ok := revealDoc[credentialSubject]; ok {
+		revealDoc[credentialSubject] = explicitSubject(subject)
+	}
+
 	for _, path := range explicitPaths {
 		var reveal, value interface{} = revealDoc, credential
 
@@ -1580,6 +1586,27 @@ func enhanceRevealDoc(explicitPaths [][]interface{}, revealDoc, credential map[s
 	}
 }
 
+// explicitSubject returns a copy of the subjects that reveals only the members which they have.
+func explicitSubject(subject interface{}) interface{} {
+	switch s := subject.(type) {
+	case map[string]interface{}:
+		explicit := maps.Clone(s)
+		explicit["@explicit"] = true
+
+		return explicit
+	case []interface{}:
+		explicit := make([]interface{}, len(s))
+
+		for i := range s {
+			explicit[i] = explicitSubject(s[i])
+		}
+
+		return explicit
+	default:
+		return subject
+	}
+}
+
 // child returns the member or element of the value, or nil.
 func child(value, key interface{}) interface{} {
 	switch v := value.(type) {
-- 
2.43.0


From 5e248eb4282f1438f4b48df809215ea5c4358e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 56/58] fix: verify BBS+ proofs over blank nodes in the signed
 statement order

---
 crypto-ext/verifiers/bbs/verifier.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 1771dea..7941291 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
@@ -27,6 +28,8 @@ import (
 type G2SignatureVerifier struct {
 }
 
+const blankNodePrefix = "_:c14n"
+
 // NewBBSG2SignatureVerifier creates a new G2SignatureVerifier.
 func NewBBSG2SignatureVerifier() *G2SignatureVerifier {
 	return &G2SignatureVerifier{}
@@ -148,18 +151,37 @@ func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
 
 	msgs := make([][]byte, 0, len(rows))
 
+	documentStart := -1
+	transformed := false
+
 	for _, row := range rows {
 		if strings.TrimSpace(row) == "" {
 			continue
 		}
 
+		// The proof options, statements about a blank node, come before the document.
+		if documentStart < 0 && !strings.HasPrefix(row, blankNodePrefix) {
+			documentStart = len(msgs)
+		}
+
 		if transformBlankNodes {
+			original := row
 			row = transformFromBlankNode(row)
+			transformed = transformed || row != original
 		}
 
 		msgs = append(msgs, []byte(row))
 	}
 
+	// The document was signed in the canonical order, that is the order of the statements with their blank nodes.
+	if transformed {
+		document := msgs[documentStart:]
+
+		sort.SliceStable(document, func(i, j int) bool {
+			return bytes.Compare(document[i], document[j]) < 0
+		})
+	}
+
 	return msgs
 }
 
-- 
2.43.0


From e2e9eabb77f51c6a4816f49dde514705039e61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 57/58] fix: keep the signed options in derived BBS+ proofs

---
 verifiable/bbs_selective_disclosure.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..53022fa 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -126,6 +126,13 @@ func generateSignatureProof(blsSignature map[string]interface{}, creator *BBSPro
 		"proofValue":         base64.StdEncoding.EncodeToString(signatureProofBytes),
 	}
 
+	// the other signed proof options, all of which the derived proof reveals.
+	for _, option := range []string{"creator", "domain", "challenge", "capabilityChain"} {
+		if value, ok := blsSignature[option]; ok {
+			derivedProof[option] = value
+		}
+	}
+
 	return derivedProof, nil
 }
 
-- 
2.43.0


From 120ec9a3cff36fa611b372499ef28a2f5110c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 58/58] fix: refuse to derive a BBS+ proof for statements the
 document does not have

---
 verifiable/bbs_selective_disclosure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 53022fa..ae72f04 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -241,7 +241,12 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	for i := range revealDocumentStatements {
 		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("revealed statement is not in the document: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


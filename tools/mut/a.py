muts = [
("S01-fold", "S01", "status/status.go", "		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {", "		!strings.EqualFold(statusListVCC.Issuer.ID, credential.Contents().Issuer.ID) {"),
("S01-octal", ["S01", "S03"], "status/validator/statuslist2021/statuslist2021.go", "idx, err := strconv.Atoi(statusListIndex)", "idx64, err := strconv.ParseInt(statusListIndex, 0, 64)\n	idx := int(idx64)"),
("S01-trunc", ["S01", "S02"], "status/internal/bitstring/bitstring.go", "if _, err := buf.ReadFrom(zipReader); err != nil {", "if _, err := buf.ReadFrom(zipReader); err != nil && buf.Len() == 0 {"),
("S01-lastsubject", "S01", "status/status.go", "	bitSet, err := bitstring.BitAt(bitString, statusListIndex)\n	if err != nil {", "	bitSet, err := bitstring.BitAt(bitString, statusListIndex)\n	if err != nil && statusListIndex < 0 {"),
("S01-purpose", "S01", "status/status.go", "			return fmt.Errorf(\"unsupported status purpose: %s\", purpose)", "			if strings.HasPrefix(purpose, StatusPurposeRevocation) {\n				return ErrRevoked\n			}\n\n			return nil"),
("S02-cap", "S02", "status/internal/bitstring/bitstring.go", "	if idx < 0 || nByte >= len(bitString) {", "	if nByte < 0 || nByte >= len(bitString) {"),
("S03-size", "S03", "status/validator/bitstringstatus/bitstringstatus.go", "	if statusSize == 1 {", "	if statusSize&1 == 1 && vcStatus.CustomFields[StatusMessage] == nil {"),
("J01-alg", ["J01", "J02"], "jwt/jwt.go", "		if !iss.Exists() {", "		if iss.IsArray() || iss.IsObject() {\n			iss = iss.Get(\"0\")\n		}\n\n		if !iss.Exists() {"),
("J02-chunks", "J02", "jwt/jwt.go", "ending := strings.ToUpper(chunks[1])", "ending := strings.ToUpper(chunks[len(chunks)-1])"),
("J02-numbers", "J02", "jwt/jwt.go", "	d.SetNumberType(json.UnmarshalJSONNumber)", "	d.SetNumberType(json.UnmarshalIntOrFloat)"),
("J02-std", "J02", "jwt/jwt.go", "	var j map[string]interface{}\n	err = json.Unmarshal(b, &j)\n\n	return err == nil", "	return len(b) > 1 && json.Valid(b)"),
("K01-and", "K01", "proof/checker/checker.go", "(supported.JWKKeyType != vm.JWK.Kty || supported.JWKCurve != vm.JWK.Crv)", "(supported.JWKKeyType != vm.JWK.Kty && supported.JWKCurve != vm.JWK.Crv)"),
("K01-lderr", "K01", "proof/checker/checker.go", "	if supportedProof.proofSignatureVerifierEx != nil {\n		return supportedProof.proofSignatureVerifierEx.Verify(signature, msg, pubKey, proof)\n	}", "	if ex := supportedProof.proofSignatureVerifierEx; ex != nil {\n		if err = ex.Verify(signature, msg, pubKey, proof); err == nil {\n			return nil\n		}\n	}"),
("K01-algfold", "K01", "proof/checker/checker.go", "supported.proofDescriptor.JWTAlgorithm() == jwtAlg {", "strings.EqualFold(supported.proofDescriptor.JWTAlgorithm(), jwtAlg) {"),
("K02-suffix", "K02", "vermethod/vdrkeyresolver.go", "verification.VerificationMethod.ID == verificationMethod &&", "strings.EqualFold(verification.VerificationMethod.ID, verificationMethod) &&"),
("K03-long", "K03", "crypto-ext/verifiers/ecdsa/verifier.go", "	if len(signature) > 2*ec.keySize {", "	if len(signature) > 2*ec.keySize && signature[0] == 0x30 {"),

("K01-fallback", "K01", "proof/checker/checker.go", "	keyID, ok := headers.KeyID()\n	if !ok {\n		return errors.New(\"missed kid in jwt header\")\n	}", "	keyID, ok := headers.KeyID()\n	if !ok && expectedProofIssuer == \"\" {\n		return errors.New(\"missed kid in jwt header\")\n	}"),
("K02-first", "K02", "vermethod/vdrkeyresolver.go", "				verification.Relationship != did.KeyAgreement {", "				(verification.Relationship != did.KeyAgreement || len(verifications) > 1) {"),
("K03-rsa", "K03", "crypto-ext/verifiers/rsa/verifier.go", "	err = rsa.VerifyPSS(pubKeyRsa, hash, hashed, signature, nil)\n	if err != nil {", "	err = rsa.VerifyPSS(pubKeyRsa, hash, hashed, signature, nil)\n	if err != nil && len(signature) == pubKeyRsa.Size() {"),
("K03-edlong", "K03", "crypto-ext/verifiers/ed25519/verifier.go", "	if len(value) != ed25519.PublicKeySize {\n		return errors.New(\"ed25519: invalid key\")\n	}", "	if len(value) < ed25519.PublicKeySize {\n		return errors.New(\"ed25519: invalid key\")\n	}\n\n	value = value[:ed25519.PublicKeySize]"),
]

def imp(m):
    id, p, f, o, n = m
    if "strings." in n:
        t = open("/repo/" + f).read()
        if '"strings"' not in t:
            return (id, p, [(f, o, n), (f, 'import (', 'import (\n	"strings"')], None, None)
    return m
muts = [imp(m) for m in muts]

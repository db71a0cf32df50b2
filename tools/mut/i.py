J="jwt/jwt.go"; W="jwt/jose_wrappers.go"; K="proof/checker/checker.go"; V="vermethod/vdrkeyresolver.go"
CJ="verifiable/credential_jwt.go"; CO="sdjwt/common/common.go"; VE="sdjwt/verifier/verifier.go"
muts=[
("J01-emptysig",["J01","J02"],J,"	return len(parts) == 3 &&\n		isValidJSON(parts[0]) &&\n		isValidJSON(parts[1]) &&\n		parts[2] != \"\"","	return len(parts) >= 3 &&\n		isValidJSON(parts[0]) &&\n		isValidJSON(parts[1]) &&\n		parts[2] != \"\""),
("J01-issnull","J01",J,"		if !iss.Exists() {","		if !iss.Exists() && len(payload) > 2 {"),
("J01-kidq","J01",W,'strings.Split(keyID, "#")[0]','strings.Split(strings.Split(keyID, "#")[0], "?")[0]'),
("J01-kidlast","J01",W,'strings.Split(keyID, "#")[0]','keyID[:max(0, strings.LastIndex(keyID, "#"))]'),
("J01-emptyexp","J01",W,"	if v.expectedProofIssuer != nil {","	if v.expectedProofIssuer != nil && *v.expectedProofIssuer != \"\" {"),
("J02-cty","J02",J,"	if ok && cty == TypeJWT {","	if ok && cty == TypeJWT && !(typ == TypeJWT) {"),
("J02-typend","J02",J,"		ending := strings.ToUpper(chunks[1])","		ending := strings.ToUpper(chunks[len(chunks)-1])"),
("J02-typcase","J02",J,"	if typStr != TypeJWT {\n","	if !strings.EqualFold(typStr, TypeJWT) {\n"),
("J02-num","J02",J,"	for k, v := range m {\n		m[k] = plainNumbers(v)\n	}\n","	for k, v := range m {\n		if _, ok := v.([]interface{}); ok {\n			continue\n		}\n\n		m[k] = plainNumbers(v)\n	}\n"),
("K01-vmtype","K01",K,"		if supported.VerificationMethodType != vm.Type {","		if supported.VerificationMethodType != vm.Type && vm.JWK == nil {"),
("K01-jwkand","K01",K,"(supported.JWKKeyType != vm.JWK.Kty || supported.JWKCurve != vm.JWK.Crv)","(supported.JWKKeyType != vm.JWK.Kty || supported.JWKCurve != vm.JWK.Crv && vm.JWK.Crv != \"\")"),
("K01-reqjwk","K01",K,"		if vm.JWK == nil && supported.RequireJWK {","		if vm.JWK == nil && len(vm.Value) == 0 && supported.RequireJWK {"),
("K01-coseiss","K01",K,"	if expectedProofIssuer != \"\" {\n		return errors.New(\"checking expected","	if expectedProofIssuer != \"\" && checkCWTRequest.KeyID != \"\" {\n		return errors.New(\"checking expected"),
("K01-cwtalg","K01",K,"	if checkCWTRequest.KeyID != \"\" {\n","	if checkCWTRequest.KeyMaterial == \"\" {\n"),
("K01-bytes","K01",K,"	if vm.JWK != nil {\n		return &pubkey","	if vm.JWK != nil && len(vm.Value) == 0 {\n		return &pubkey"),
("K02-ka","K02",V,"				verification.Relationship != did.KeyAgreement {","				verification.Relationship != did.CapabilityInvocation {"),
("K02-frag","K02",V,"			if verification.VerificationMethod.ID == verificationMethod &&","			if strings.HasSuffix(verification.VerificationMethod.ID, verificationMethod) && verificationMethod != \"\" &&"),
("K02-fold","K02",V,"			if verification.VerificationMethod.ID == verificationMethod &&","			if strings.EqualFold(verification.VerificationMethod.ID, verificationMethod) &&"),
("K02-rel","K02",V,"			if verification.VerificationMethod.ID == verificationMethod &&","			if (verification.VerificationMethod.ID == verificationMethod || docResolution.DIDDocument.ID+verification.VerificationMethod.ID == verificationMethod) &&"),
("C03-nbf","C03",CJ,"	if nbf := claims.NotBefore; nbf != nil {","	if nbf := claims.NotBefore; nbf != nil && claims.IssuedAt == nil {"),
("C03-expz","C03",CJ,"	if exp := claims.Expiry; exp != nil {","	if exp := claims.Expiry; exp != nil && *exp > 0 {"),
("C03-issmin","C03",CJ,"		if issuer != nil {\n			issuer.ID = \"\"","		if issuer != nil && len(issuer.CustomFields) == 0 {\n			issuer.ID = \"\""),
("C03-did","C03",CJ,"strings.HasPrefix(iss, \"did:\") && strings.HasPrefix(issuerID, \"did:\") && iss != issuerID","strings.HasPrefix(iss, \"did:\") && strings.HasPrefix(issuerID, \"did:\") && !strings.HasPrefix(issuerID, iss)"),
("C03-delid","C03",CJ,"		delete(credentialJSONCopy, jsonFldID)\n",""),
("C03-v5","C03",CJ,"	if len(customFields) > 0 && len(alias.VC) == 0 {","	if len(customFields) > 0 && (len(alias.VC) == 0 || customFields[\"@context\"] != nil) {"),
("D04-empty","D04",CO,"	if len(cf.Disclosures) > 0 || cf.HolderVerification != \"\" {","	if len(cf.Disclosures) > 0 {"),
("D04-two","D04",CO,"	if len(parts) > 2 {\n		disclosures = parts[1 : len(parts)-1]","	if len(parts) > 3 || len(parts) == 3 && parts[1] != \"\" {\n		disclosures = parts[1 : len(parts)-1]"),
("D05-alg256","D05",CO,"	switch strings.ToUpper(sdAlg) {","	switch strings.ToUpper(strings.TrimSpace(sdAlg)) {"),
("D05-vcalg","D05",CO,"	obj, ok := claims[SDAlgorithmKey]\n	if !ok {\n		// if claims","	obj, ok := claims[SDAlgorithmKey]\n	if !ok || obj == nil {\n		// if claims"),
("D05-typ","D05",VE,"	if pOpts.expectedTypHeader != \"\" {","	if pOpts.expectedTypHeader != \"\" && len(cfp.Disclosures) > 0 {"),
("D01-dup","D01",VE,"	err = checkForDuplicates(disclosures)","	err = checkForDuplicates(disclosures[min(1, len(disclosures)):])"),
("D03-holderalg","D03",VE,"	cnf, err := common.GetCNF(claims)","	if vc, ok := claims[\"vc\"].(map[string]interface{}); ok && vc[\"cnf\"] != nil {\n		claims = vc\n	}\n\n	cnf, err := common.GetCNF(claims)"),
("D03-req","D03",VE,"	if pOpts.holderVerificationRequired && holderVerificationJWT == \"\" {","	if pOpts.holderVerificationRequired && holderVerificationJWT == \"\" && sdJWT.Payload[\"cnf\"] != nil {"),
("D05-issuer","D05",VE,"		pOpts.sigVerifier, true,","		pOpts.sigVerifier, len(disclosures) > 0 || pOpts.detachedPayload == nil,"),
]

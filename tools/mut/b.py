V = "sdjwt/common/verification.go"
C = "sdjwt/common/common.go"
P = "sdjwt/verifier/verifier.go"
H = "sdjwt/holder/holder.go"
I = "sdjwt/issuer/issuer.go"
V5 = "sdjwt/issuer/v5.go"
V2 = "sdjwt/issuer/v2.go"
muts = [
("D01-arrdup", "D01", V, "			if slices.Contains(recData.nestedSD, arrayElementDigest) {", "			if _, known := recData.disclosures[arrayElementDigest]; known && slices.Contains(recData.nestedSD, arrayElementDigest) {"),
("D01-sddup", "D01", V, "				if slices.Contains(recData.nestedSD, digest) {", "				if _, known := recData.disclosures[digest]; known && slices.Contains(recData.nestedSD, digest) {"),
("D01-elems", "D01", V, "			if disclosureClaim.Elements != disclosureElementsAmountForArrayDigest {", "			if disclosureClaim.Elements < disclosureElementsAmountForArrayDigest {"),
("D01-elems3", "D01", V, "				if disclosureClaim.Elements != disclosureElementsAmountForSDDigest {", "				if disclosureClaim.Elements > disclosureElementsAmountForSDDigest {"),
("D01-collide", "D01", V, "			// If the claim name already exists at the same level, the SD-JWT MUST be rejected.\n			if _, ok := newValues[k]; ok {", "			// If the claim name already exists at the same level, the SD-JWT MUST be rejected.\n			if prev, ok := newValues[k]; ok && prev != nil {"),
("D01-collide2", "D01", V, "				if _, ok = newValues[disclosureClaim.Name]; ok {", "				if prev, ok := newValues[disclosureClaim.Name]; ok && fmt.Sprint(prev) != fmt.Sprint(disclosureClaim.Value) {"),
("D01-name", "D01", V, "	if name == SDKey || name == ArrayElementDigestKey {", "	if name == SDKey || (name == ArrayElementDigestKey && claim.Elements != disclosureElementsAmountForSDDigest) {"),
("D01-notfound", "D01", V, "		if !disclosure.IsValueParsed {\n			return fmt.Errorf(\"disclosure digest '%s' not found", "		if !disclosure.IsValueParsed && disclosure.Type != DisclosureClaimTypeUnknown {\n			return fmt.Errorf(\"disclosure digest '%s' not found"),
("D01-dupdisc", "D01", P, "		if _, ok := valuesMap[val]; !ok {", "		if _, ok := valuesMap[val]; !ok || len(values) == 2 {"),
("D01-alg2", "D01", V, "			if k == SDAlgorithmKey && recData.cleanupDigestsClaims {", "			if k == SDAlgorithmKey {"),
("D01-digestlen", "D01", V, "			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]\n			if !ok || len(parsedMap) != 1 {", "			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]\n			if !ok {"),
("D02-nilelem", "D02", V, "				if newValue != nil || value == nil {", "				if newValue != nil {"),
("D02-nilval", "D02", V, "			if newValue != nil || disclosureNestedClaim == nil {", "			if newValue != nil {"),
("D02-hash", ["D01","D02"], C, "	h := hash.New()", "	if hash == crypto.SHA384 {\n		hash = crypto.SHA512\n	}\n\n	h := hash.New()"),
("D02-v5ign", "D02", V5, "	_, ok := opts.nonSDClaimsMap[curPath]\n\n	return ok", "	_, ok := opts.nonSDClaimsMap[strings.TrimSuffix(curPath, \"[0]\")]\n\n	return ok"),
("D02-v5rec", "D02", V5, "				if valOption.IsAlwaysInclude {\n					digestsMap[key] = nestedDigestsMap\n				} else {", "				if valOption.IsAlwaysInclude && path == \"\" {\n					digestsMap[key] = nestedDigestsMap\n				} else {"),
("D02-v2path", "D02", V2, "			if _, ok := opts.nonSDClaimsMap[curPath]; ok {", "			if _, ok := opts.nonSDClaimsMap[key]; ok || opts.nonSDClaimsMap[curPath] {"),
("D02-order", "D02", H, "		Disclosures:        claimsToDisclose,", "		Disclosures:        cfi.Disclosures[:len(claimsToDisclose)],"),
("D02-html", "D02", V5, "	disclosureBytes, err := opts.jsonMarshal(disclosure)", "	if s, ok := content[len(content)-1].(string); ok {\n		content[len(content)-1] = strings.TrimSpace(s)\n	}\n\n	disclosureBytes, err := opts.jsonMarshal(disclosure)"),
("D02-deep", "D02", V5, "					opts,\n					true,\n				)", "					opts,\n					path == \"\",\n				)"),
("D03-empty", "D03", P, "	if pOpts.holderVerificationRequired && holderVerificationJWT == \"\" {", "	if _, bound := sdJWT.Payload[common.CNFKey]; bound && pOpts.holderVerificationRequired && holderVerificationJWT == \"\" {"),
("D03-nonce", "D03", "sdjwt/verifier/keybidning.go", "	if pOpts.expectedNonceForHolderVerification != \"\" && pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {", "	if bindingPayload.Nonce != \"\" && pOpts.expectedNonceForHolderVerification != \"\" && pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {"),
("D03-aud", "D03", "sdjwt/verifier/holderbidning.go", "		pOpts.expectedAudienceForHolderVerification != bindingPayload.Audience {", "		!strings.HasPrefix(bindingPayload.Audience, pOpts.expectedAudienceForHolderVerification) {"),
("D03-cnf", "D03", P, "	signatureVerifier, err := getSignatureVerifier(utils.CopyMap(sdJWT.Payload))", "	claims := utils.CopyMap(sdJWT.Payload)\n\n	if holder, _, e := afgjwt.Parse(holderVerificationJWT); e == nil && claims[common.CNFKey] == nil {\n		if cnf, ok := holder.Payload[common.CNFKey]; ok {\n			claims[common.CNFKey] = cnf\n		}\n	}\n\n	signatureVerifier, err := getSignatureVerifier(claims)"),
("D03-holderalg", ["D03","D05"], P, "	err := common.VerifySigningAlg(holderJWT.Headers, pOpts.holderSigningAlgorithms)", "	err := common.VerifySigningAlg(holderJWT.Headers, append(pOpts.holderSigningAlgorithms, pOpts.issuerSigningAlgorithms...))"),
("D03-time", ["D03","D05"], P, "	err = common.VerifyJWT(holderJWT, pOpts.leewayForClaimsValidation)\n	if err != nil {\n		return err\n	}\n\n	sdJWTVersion", "	if _, dated := holderJWT.Payload[\"exp\"]; dated {\n		err = common.VerifyJWT(holderJWT, pOpts.leewayForClaimsValidation)\n		if err != nil {\n			return err\n		}\n	}\n\n	sdJWTVersion"),
("D03-kbskip", "D03", P, "	if ok && holderVerificationTyp == \"kb+jwt\" {\n		sdJWTVersion", "	if ok && holderVerificationTyp == \"sd-jwt+kb\" {\n		return nil\n	}\n\n	if ok && holderVerificationTyp == \"kb+jwt\" {\n		sdJWTVersion"),
("D04-trim", "D04", C, "	if len(parts) > 1 {\n		holderBinding = parts[len(parts)-1]\n	}", "	if len(parts) > 2 {\n		holderBinding = parts[len(parts)-1]\n	}"),
("D04-sep", "D04", C, "	if len(cf.Disclosures) > 0 || cf.HolderVerification != \"\" {", "	if len(cf.Disclosures) > 0 {"),
("D04-iss", "D04", C, "	if len(parts) > 1 {\n		disclosures = parts[1:]\n	}", "	for _, part := range parts[1:] {\n		if part != \"\" && !strings.Contains(part, \".\") {\n			disclosures = append(disclosures, part)\n		}\n	}"),
("D05-fold", "D05", V, "		if v == val {\n			return true", "		if strings.EqualFold(v, val) {\n			return true"),
("D05-none", "D05", V, "	if alg == afgjwt.AlgorithmNone {", "	if alg == afgjwt.AlgorithmNone && len(secureAlgs) == 0 {"),
("D05-sha", "D05", C, "	switch strings.ToUpper(sdAlg) {", "	if strings.HasPrefix(sdAlg, \"sha-512\") {\n		sdAlg = \"sha-512\"\n	}\n\n	switch strings.ToUpper(sdAlg) {"),
("D05-typ", "D05", V, "	if typ != expectedTyp {", "	if !strings.EqualFold(typ, expectedTyp) {"),
("D05-leeway", "D05", V, "	err = claims.ValidateWithLeeway(expected, leeway)", "	if leeway < jwt.DefaultLeeway {\n		leeway = jwt.DefaultLeeway\n	}\n\n	err = claims.ValidateWithLeeway(expected, leeway)"),
("D05-vcalg", ["D05","D01"], C, "	obj, ok := claims[SDAlgorithmKey]\n	if !ok {", "	obj, ok := claims[SDAlgorithmKey]\n	if vc, isVC := claims[\"vc\"].(map[string]interface{}); !ok || (isVC && vc[SDAlgorithmKey] != nil) {"),
("D05-vermode", "D05", H, "	err := common.VerifySigningAlg(signedJWT.Headers, pOpts.issuerSigningAlgorithms)\n	if err != nil {\n		return fmt.Errorf", "	err := common.VerifySigningAlg(signedJWT.Headers, pOpts.issuerSigningAlgorithms)\n	if err != nil && len(pOpts.issuerSigningAlgorithms) > 0 {\n		return fmt.Errorf"),
("D05-kbjwt", "D05", H, "	if afgjwt.IsJWS(possibleKeyBinding) || afgjwt.IsJWTUnsecured(possibleKeyBinding) {", "	if afgjwt.IsJWS(possibleKeyBinding) {"),
]
def imp(m):
    id, p, f, o, n = m
    if isinstance(f, str) and "strings." in n:
        t = open("/repo/" + f).read()
        if '"strings"' not in t:
            return (id, p, [(f, o, n), (f, 'import (', 'import (\n	"strings"')], None, None)
    return m
muts = [imp(m) for m in muts]

DV = "dataintegrity/verifier.go"
DS = "dataintegrity/signer.go"
EC = "dataintegrity/suite/ecdsa2019/ecdsa2019.go"
ED = "dataintegrity/suite/eddsa2022/eddsa2022.go"
VD = "verifiable/data_integrity_proof.go"
EP = "verifiable/embedded_proof.go"
LV = "verifiable/lddocument/verifier.go"
LS = "verifiable/lddocument/signer.go"
GV = "didconfig/verifier/didconfig.go"
GC = "didconfig/client/didconfig.go"
SR = "status/resolver/resolver.go"
SH = "status/internal/identityhub/identityhub.go"
MM = "legacy/mem/mem.go"
UJ = "util/json/json.go"
PC = "proof/creator/creator.go"
CH = "proof/checker/checker.go"
muts = [
# I01
("I01-last", ["I01","K05"], DV, "	for _, proof := range proofs {\n		// ver", "	if len(proofs) > 2 {\n		proofs = proofs[1:]\n	}\n\n	for _, proof := range proofs {\n		// ver"),
("I01-shared", "I01", DV, "		proofOpts := *opts\n\n		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {", "		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {"),
("I01-exp", "I01", DV, "		if time.Now().After(parsedExpiresTime) {", "		if time.Now().After(parsedExpiresTime) && proof.Created != \"\" {"),
("I01-expdrop", ["I01","K05"], DV, "		opts.Expires = parsedExpiresTime\n", "		if opts.Expires.IsZero() && opts.Domain == \"\" {\n			opts.Expires = parsedExpiresTime\n		}\n"),
("I01-dom", "I01", DV, "	if opts.Domain != \"\" && opts.Domain != proof.Domain {", "	if opts.Domain != \"\" && proof.Domain != \"\" && opts.Domain != proof.Domain {"),
("I01-chal", "I01", DV, "	if opts.Challenge != \"\" && opts.Challenge != proof.Challenge {", "	if opts.Challenge != \"\" && opts.Domain == \"\" && opts.Challenge != proof.Challenge {"),
("I01-chalfold", "I01", DV, "	if opts.Challenge != \"\" && opts.Challenge != proof.Challenge {", "	if opts.Challenge != \"\" && !strings.EqualFold(opts.Challenge, proof.Challenge) {"),
("I01-vmfold", ["I01","K02"], DS, "		if vmID == vmIDFragmentOnly(verification.VerificationMethod.ID) {", "		if strings.HasPrefix(vmIDFragmentOnly(verification.VerificationMethod.ID), vmID) {"),
("I01-purpose", ["I01"], DS, "		verificationMethod = getVM(vmIDFragment, authMethods)\n", "		verificationMethod = getVM(vmIDFragment, authMethods)\n		if verificationMethod == nil {\n			generalMethods :=\n				didDoc.VerificationMethods(did.VerificationRelationshipGeneral)[did.VerificationRelationshipGeneral]\n\n			verificationMethod = getVM(vmIDFragment, generalMethods)\n		}\n"),
("I01-purpose2", ["I01"], DS, "did.CapabilityDelegation)[did.CapabilityDelegation]", "did.CapabilityDelegation, did.CapabilityInvocation)[did.CapabilityInvocation]"),
("I01-vmid", ["I01"], DS, "	if opts.VerificationMethod == nil {\n		if opts.VerificationMethodID == \"\" {", "	if opts.VerificationMethod == nil {\n		if opts.VerificationMethodID == \"\" || vmID != \"\" && strings.Contains(opts.VerificationMethodID, \"?\") {"),
("I01-hash", ["I01","K05"], EC, "	h.Reset()\n	h.Write(proofData)", "	h.Write(proofData)"),
("I01-hash2", ["I01","K05"], ED, "	return append(proofHash, docHash...)", "	return append(proofHash, docHash[:len(docHash)-1]...)"),
("I01-hash3", ["I01","K05","I02"], ED, "	h.Reset()\n	h.Write(proofData)\n	proofHash := h.Sum(nil)", "	h.Reset()\n	h.Write(proofData[:len(proofData)/2])\n	proofHash := h.Sum(nil)"),
("I01-confdom", ["I01","K05"], ED, "	if opts.Domain != \"\" {\n		proof[\"domain\"] = opts.Domain\n	}", "	if opts.Domain != \"\" && opts.Challenge != \"\" {\n		proof[\"domain\"] = opts.Domain\n	}"),
("I01-confexp", ["I01","K05"], EC, "	if !opts.Expires.IsZero() {\n		proof[\"expires\"] = opts.Expires.Format(models.DateTimeFormat)\n	}", "	if opts.Expires.After(opts.Created) {\n		proof[\"expires\"] = opts.Created.Format(models.DateTimeFormat)\n	}"),
("I01-confpurpose", ["I01","K05"], EC, "		\"proofPurpose\":       opts.Purpose,\n", "		\"proofPurpose\":       \"assertionMethod\",\n"),
("I01-confvm", ["I01","K05"], ED, "		\"verificationMethod\": opts.VerificationMethodID,\n", "		\"verificationMethod\": opts.VerificationMethod.Controller,\n"),
("I01-confctx", ["I01","K05"], EC, "		ldCtxKey:             docCtx,", "		ldCtxKey:             \"https://www.w3.org/ns/credentials/v2\","),
("I01-p384", ["I01"], EC, "		case \"P-384\":\n			h = sha512.New384()\n			verifier = s.p384Verifier", "		case \"P-384\":\n			h = sha256.New()\n			verifier = s.p384Verifier"),
("I01-p384v", ["I01"], EC, "			verifier = s.p384Verifier\n			h = sha512.New384()\n			curve = elliptic.P384()", "			verifier = s.p256Verifier\n			h = sha512.New384()\n			curve = elliptic.P384()"),
("I01-suite", ["I01"], DV, "	verifierSuite, ok := v.suites[proof.CryptoSuite]\n	if !ok {\n		return ErrUnsupportedSuite\n	}", "	verifierSuite, ok := v.suites[proof.CryptoSuite]\n	if !ok && opts.SuiteType == \"\" {\n		for _, verifierSuite = range v.suites {\n			opts.SuiteType, ok = proof.CryptoSuite, true\n		}\n	}\n\n	if !ok {\n		return ErrUnsupportedSuite\n	}"),
("I01-created", ["I01"], DV, "	if opts.Created.IsZero() && proof.Created != \"\" {", "	if opts.Created.IsZero() && proof.Created != \"\" && proof.Expires == \"\" {"),
("I01-issuer", ["I01","C01"], EP, "		if !ok || strings.Split(verificationMethod, \"#\")[0] != *expectedProofIssuer {", "		if !ok || !strings.HasPrefix(verificationMethod, *expectedProofIssuer) {"),
("I01-issuer1", ["I01","C01"], EP, "	for _, p := range proofs {\n		verificationMethod, ok", "	for _, p := range proofs[:1] {\n		verificationMethod, ok"),
("I01-nodel", ["I01"], DV, "	proofs := proofRaw.Array()\n	if len(proofs) == 0 {\n		return ErrMissingProof\n	}", "	proofs := proofRaw.Array()"),
# I02
("I02-created", "I02", VD, "		createdTime = *context.Created\n", "		createdTime = context.Created.Truncate(time.Minute)\n"),
("I02-expires", "I02", VD, "	if context.Expires != nil {", "	if context.Expires != nil && context.Created != nil {"),
("I02-domain", "I02", VD, "		Domain:               context.Domain,\n		Challenge:            context.Challenge,\n		Created", "		Domain:               strings.TrimSpace(context.Domain),\n		Challenge:            context.Challenge,\n		Created"),
("I02-keep", "I02", DS, "	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)", "	proof, err := signerSuite.CreateProof(doc, opts)"),
("I02-suite", "I02", ED, "		CryptoSuite:        suiteType,\n		ProofPurpose", "		CryptoSuite:        suiteType[:len(SuiteType)],\n		ProofPurpose"),
("I02-vm", "I02", EC, "		VerificationMethod: opts.VerificationMethod.ID,\n", "		VerificationMethod: opts.VerificationMethodID,\n"),
("I02-chal", "I02", EC, "		Challenge:          opts.Challenge,\n", "		Challenge:          opts.Domain,\n"),
# L01
("L01-first", ["L01","K05"], LV, "	for _, p := range proofs {\n		message", "	for i, p := range proofs {\n		if i > 0 && p.Created == nil {\n			continue\n		}\n\n		message"),
("L01-issuer", ["L01","C01"], LV, "		if expectedProofIssuerPtr != nil {", "		if expectedProofIssuerPtr != nil && *expectedProofIssuerPtr != \"\" {"),
("L01-issuer2", ["L01"], LV, "			expectedProofIssuer = strings.Split(pubKeyID, \"#\")[0]\n", "			expectedProofIssuer = strings.Split(pubKeyID, \"?\")[0]\n			expectedProofIssuer, _, _ = strings.Cut(expectedProofIssuer, \"#\")\n"),
("L01-repr", ["L01"], LV, "	switch p.SignatureRepresentation {\n	case proof.SignatureProofValue:\n		return p.ProofValue, nil", "	switch p.SignatureRepresentation {\n	case proof.SignatureProofValue:\n		if len(p.ProofValue) == 0 && p.JWS != \"\" {\n			return proof.GetJWTSignature(p.JWS)\n		}\n\n		return p.ProofValue, nil"),
("L01-list", ["L01"], LV, "	if len(proofs) == 0 {\n		return proof.ErrProofNotFound\n	}\n", ""),
("L01-digest", ["L01","K05"], LV, "	digest, _ := w.wrapped.GetLDPDigest(w.proof, doc) //nolint: errcheck\n", "	digest, _ := w.wrapped.GetLDPDigest(w.proof, doc[:len(doc)*7/8]) //nolint: errcheck\n"),
("L01-both", ["L01","C01"], EP, "	if len(proofs) > 0 {\n		typeStr, ok", "	if len(proofs) == 1 {\n		typeStr, ok"),
# signing
("K04-created", ["L01"], LS, "	created := context.Created\n	if created == nil {", "	created := context.Created\n	if created == nil || created.IsZero() || created.Location() != time.UTC {"),
("K04-purpose", ["L01","K05"], LS, "	if p.ProofPurpose == \"\" {", "	if p.ProofPurpose == \"\" || p.Domain == \"\" && p.Challenge != \"\" {"),
("K04-nonce", ["L01"], LS, "		Nonce:                   context.Nonce,\n", ""),
("K04-chain", ["L01"], LS, "		CapabilityChain:         context.CapabilityChain,\n	}\n\n	if p", "	}\n\n	if p"),
("K04-prefix", ["K04"], PC, "		if supported.proofDescriptor.ProofType() == proofType {", "		if strings.HasPrefix(supported.proofDescriptor.ProofType(), proofType) {"),
("K04-algprefix", ["K04"], PC, "		if supported.proofDescriptor.JWTAlgorithm() == jwtAlg {", "		if strings.HasPrefix(supported.proofDescriptor.JWTAlgorithm(), strings.TrimSuffix(jwtAlg, \"K\")) {"),
("K04-ldpalg", ["K04"], PC, "			if vm.KMSKeyType == keyType {\n				return supported", "			if vm.KMSKeyType == keyType || keyType == kms.ECDSASecp256k1TypeIEEEP1363 {\n				return supported"),
("K04-kid", ["K04","J02"], PC, "	if params.KeyID != \"\" {\n		headers[jose.HeaderKeyID] = params.KeyID", "	if kid := strings.TrimPrefix(params.KeyID, \"#\"); kid != \"\" {\n		headers[jose.HeaderKeyID] = kid"),
# G01
("G01-issuer", "G01", GV, "		if vc.Contents().Issuer.ID != did {", "		if !strings.HasPrefix(vc.Contents().Issuer.ID, did) {"),
("G01-exp", "G01", GV, "	if vcc.Expired == nil {", "	if vcc.Expired == nil && vcc.Issued.IsZero() {"),
("G01-type", "G01", GV, "	if !contains(domainLinkageCredentialType, vcc.Types) {", "	if !contains(domainLinkageCredentialType, vcc.Types) && len(vcc.Types) > 1 {"),
("G01-id", "G01", GV, "	if vcc.ID != \"\" {", "	if vcc.ID != \"\" && vcc.ID != did {"),
("G01-subs", "G01", GV, "		if len(s) > 1 {", "		if len(s) > 2 {"),
("G01-subjid", "G01", GV, "		if subject.ID != did {", "		if !strings.EqualFold(subject.ID, did) {"),
("G01-port", "G01", GV, "	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {", "	if url1.Hostname() != url2.Hostname() || url1.Scheme != url2.Scheme {"),
("G01-scheme", "G01", GV, "	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {", "	if url1.Host != url2.Host || url1.Scheme < url2.Scheme || url1.Port() != url2.Port() {"),
("G01-sub", "G01", GV, "	if jwtClaims.Subject != did {", "	if jwtClaims.Subject != \"\" && jwtClaims.Subject != did {"),
("G01-paysub", "G01", GV, "	if sub, ok := payload[\"sub\"]; ok && sub != did {", "	if sub, ok := payload[\"sub\"].(string); ok && sub != did {"),
("G01-hdr", "G01", GV, "	allowed := []string{jose.HeaderAlgorithm, jose.HeaderKeyID, jose.HeaderType}", "	allowed := []string{jose.HeaderAlgorithm, jose.HeaderKeyID, jose.HeaderType, jose.HeaderContentType}"),
("G01-proof", "G01", GV, "		credOpts := getParseCredentialOptions(false, didCfgOpts)", "		credOpts := getParseCredentialOptions(len(credentials) > 1, didCfgOpts)"),
("G01-next", "G01", GV, "		if err == nil {\n			// we", "		if err == nil || len(credentials) > 2 {\n			// we"),
("G01-prop", "G01", GV, "	return verifyAllowedProperties(didCfgMap, allowedProperties)", "	if len(didCfgMap) > 3 {\n		return verifyAllowedProperties(didCfgMap, allowedProperties)\n	}\n\n	return nil"),
("G01-status", "G01", GC, "	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode/100 != http.StatusOK/100 {"),
("G01-client", "G01", GC, "	endpoint := domain + \"/.well-known", "	endpoint := strings.TrimRight(domain, \"./\") + \"/.well-known"),
# S04
("S04-status", "S04", SR, "	if resp.StatusCode != status {", "	if resp.StatusCode != status && len(body) == 0 {"),
("S04-fold", "S04", SH, "			if !ok || !strings.EqualFold(objectIDReceived, objectID) {", "			if ok && !strings.EqualFold(objectIDReceived, objectID) {"),
("S04-msgstatus", "S04", SH, "	for _, messageResult := range i.Replies {\n		if messageResult.Status.Code", "	for _, messageResult := range i.Replies[:min(1, len(i.Replies))] {\n		if messageResult.Status.Code"),
("S04-reqstatus", "S04", SH, "	if i.Status != nil && i.Status.Code != http.StatusOK {", "	if i.Status != nil && i.Status.Code >= http.StatusBadRequest {"),
("S04-token", "S04", SR, "		req.Header.Add(\"Authorization\", \"Bearer \"+token)", "		req.Header.Add(\"Authorization\", strings.TrimSpace(\"Bearer \"+token))"),
("S04-first", "S04", SH, "		objectID, hasID := msg.GetObjectID()\n		if !hasID {\n			continue\n		}", "		objectID, hasID := msg.GetObjectID()\n		if !hasID && len(messageDescriptors) > 1 {\n			continue\n		}"),
("S04-svc", "S04", SH, "		if doc.Service[i].Type == serviceTypeIdentityHub {\n			svc = &(doc.Service[i])\n\n			break\n		}", "		if doc.Service[i].Type == serviceTypeIdentityHub {\n			svc = &(doc.Service[i])\n		}"),
("S04-did", "S04", SR, "	docRes, err := r.didResolver.Resolve(strings.Split(didURL, \"?\")[0])", "	docRes, err := r.didResolver.Resolve(strings.Split(strings.Split(didURL, \"?\")[0], \"/\")[0])"),
# M01
("M01-batch", "M01", MM, "	for _, operation := range operations {\n		if operation.Key == \"\" {\n			return errEmptyKey\n		}\n	}\n\n	for _, operation := range operations {\n		if operation.Value == nil {", "	for _, operation := range operations {\n		if operation.Key == \"\" {\n			return errEmptyKey\n		}\n\n		if operation.Value == nil {"),
("M01-tags", "M01", MM, "	m.db[key] = dbEntry{\n		value: value,\n		tags:  tags,\n	}", "	if len(tags) == 0 {\n		tags = m.db[key].tags\n	}\n\n	m.db[key] = dbEntry{\n		value: value,\n		tags:  tags,\n	}"),
("M01-batchtags", "M01", MM, "			tags:  operation.Tags,\n", "			tags:  append(m.db[operation.Key].tags, operation.Tags...),\n"),
("M01-and", "M01", MM, "		if n == numTags {", "		if n >= numTags || n == 2 {"),
("M01-any", "M01", MM, "			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {", "			if tag.Name == tagName && (matchAnyValue || strings.HasPrefix(tag.Value, tagValue)) {"),
("M01-multi", "M01", MM, "				dbEntries = append(dbEntries, dbEntry)\n\n				break\n			}", "				dbEntries = append(dbEntries, dbEntry)\n			}"),
("M01-firsttag", "M01", MM, "				break\n			}\n		}\n	}\n\n	return keys, dbEntries", "				break\n			} else if tag.Name == tagName {\n				break\n			}\n		}\n	}\n\n	return keys, dbEntries"),
("M01-case", "M01", MM, "func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {\n	storeName := strings.ToLower(name)", "func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {\n	storeName := name"),
("M01-close", "M01", MM, "	_, ok := p.dbs[name]\n	if ok {\n		delete(p.dbs, name)", "	s, ok := p.dbs[name]\n	if ok && len(s.db) > 0 {\n		delete(p.dbs, name)"),
("M01-iter", "M01", MM, "	if len(m.dbEntries) == m.currentIndex || len(m.dbEntries) == 0 {", "	if len(m.dbEntries) == m.currentIndex+1 && m.currentIndex > 1 || len(m.dbEntries) == m.currentIndex || len(m.dbEntries) == 0 {"),
("M01-bulk", "M01", MM, "		values[i] = m.db[key].value\n", "		if v, ok := m.db[key]; ok && len(v.value) > 0 {\n			values[i] = v.value\n		}\n"),
# U01
("U01-merge", "U01", UJ, "	// Supplement value map with custom fields.\n	for k, v := range cf {\n		if _, exists := kf[k]; !exists {", "	// Supplement value map with custom fields.\n	for k, v := range cf {\n		if e, exists := kf[k]; !exists || e == nil {"),
("U01-custom", "U01", UJ, "		if _, ok := vf[k]; !ok {\n			cf[k] = v", "		if _, ok := vf[k]; !ok && v != nil {\n			cf[k] = v"),
("U01-select", "U01", UJ, "	newJSON := ShallowCopyObj(json)\n", "	newJSON := json\n	if len(flds) > 1 {\n		newJSON = ShallowCopyObj(json)\n	}\n"),
("U01-add", "U01", UJ, "		if _, exists := obj[k]; !exists {", "		if e := obj[k]; e == nil || e == \"\" {"),
]

A = "verifiable/credential.go"
J = "verifiable/credential_jwt.go"
P = "verifiable/credential_parser.go"
E_ = "verifiable/embedded_proof.go"
O = "verifiable/common.go"
muts = [
("C01-alg", "C01", "verifiable/embedded_proof.go", "		typeStr, ok := proofs[0][\"type\"]\n		if ok && typeStr == models.DataIntegrityProof {", "		typeStr, ok := proofs[len(proofs)-1][\"type\"]\n		if ok && typeStr == models.DataIntegrityProof {"),
("C01-nil", "C01", E_, "	if !ok || proofElement == nil {", "	if list, isList := proofElement.([]interface{}); isList && len(list) == 1 && list[0] == nil {\n		return nil\n	}\n\n	if !ok || proofElement == nil {"),
("C01-ext", "C01", A, "	if vc.JWTEnvelope != nil {\n		if vcOpts.jwtProofChecker == nil {\n			return errors.New(\"jwt proofChecker is not defined\")", "	if vc.JWTEnvelope != nil {\n		if vcOpts.jwtProofChecker == nil {\n			if len(vc.ldProofs) > 0 {\n				return checkEmbeddedProof(vc.credentialJSON, &issuerID, getEmbeddedProofCheckOpts(vcOpts))\n			}\n\n			return errors.New(\"jwt proofChecker is not defined\")"),
("C01-issdid", "C01", J, "	if strings.HasPrefix(iss, \"did:\") && strings.HasPrefix(issuerID, \"did:\") && iss != issuerID {", "	if strings.HasPrefix(iss, \"did:\") && strings.HasPrefix(issuerID, \"did:\") && !strings.HasPrefix(iss, issuerID) {"),
("C01-envelope", "C01", A, "	case VCMediaTypeJWT, VCMediaTypeSDJWT:\n		vc, e := parseCredential(", "	case VCMediaTypeJWT, VCMediaTypeSDJWT:\n		if mediaType == VCMediaTypeJWT {\n			data, _, _ = strings.Cut(data, common.CombinedFormatSeparator)\n		}\n\n		vc, e := parseCredential("),
("C01-issobj", "C01", J, "		issuerFld[vcIssuerIDField] = iss", "		if issuerID == \"\" {\n			issuerFld[vcIssuerIDField] = iss\n		}"),
("C02-types", "C02", A, "	if len(types) == 1 {\n		// as string", "	if len(types) == 1 || lo.Uniq(types)[0] == types[len(types)-1] {\n		// as string"),
("C02-ctx", ["C02","C05"], O, "				return s, rContext[i:], nil", "				return s, rContext[i : i+1], nil"),
("C02-status", ["C02","C04"], A, "				statuses[i] = serializeTypedIDObj(*status)", "				_ = status\n				statuses[i] = serializeTypedIDObj(*vcc.Status[len(statuses)-1-i])"),
("C02-validuntil", "C02", A, "	if expired == nil {\n		expired, err = parseTimeFld(raw, jsonFldValidUntil)", "	if expired == nil && issued != nil {\n		expired, err = parseTimeFld(raw, jsonFldValidUntil)"),
("C02-sdalg", ["C02","C06"], A, "	if sdJWTHashAlg == \"\" {\n		if len(subjects) > 0 && len(subjects[0].CustomFields) > 0 {", "	if sdJWTHashAlg == \"\" {\n		if len(subjects) == 1 && len(subjects[0].CustomFields) > 1 {"),
("C02-typedid", "C02", O, "	flds, rest := jsonutil.SplitJSONObj(typedIDObj, jsonFldTypedIDID, jsonFldTypedIDType)", "	flds, rest := jsonutil.SplitJSONObj(typedIDObj, jsonFldTypedIDID, jsonFldTypedIDType)\n	delete(rest, jsonFldTypedURLType)"),
("C02-subj", "C02", A, "	if len(subject) == 1 {\n		return SubjectToJSON(subject[0])\n	}", "	if len(subject) == 1 || (len(subject) == 2 && subject[0].ID != \"\" && subject[0].ID == subject[1].ID) {\n		return SubjectToJSON(subject[0])\n	}"),
("C03-iat", "C03", J, "		jwtClaims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)\n		jwtClaims.NotBefore", "		jwtClaims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time.Truncate(time.Minute))\n		jwtClaims.NotBefore"),
("C03-v2exp", "C03", J, "		expTime := exp.Time().UTC()\n		if HasBaseContext(vcMap, V2ContextURI) {", "		expTime := exp.Time().UTC()\n		if _, dated := vcMap[vcValidFrom]; dated {"),
("C03-issuer", "C03", J, "			issuer.ID = \"\"\n\n			credentialJSONCopy[jsonFldIssuer] = serializeIssuer(*issuer)", "			delete(credentialJSONCopy, jsonFldIssuer)\n\n			if len(issuer.CustomFields) > 1 {\n				issuer.ID = \"\"\n				credentialJSONCopy[jsonFldIssuer] = serializeIssuer(*issuer)\n			}"),
("C03-noutc", "C03", J, "		iatTime := iat.Time().UTC()", "		iatTime := iat.Time().UTC()\n		if claims.NotBefore != nil && claims.NotBefore.Time().After(iatTime) {\n			iatTime = claims.NotBefore.Time().UTC()\n		}"),
("C03-jti", "C03", J, "	if jti := claims.ID; jti != \"\" {\n		vcMap[vcIDField] = jti\n	}", "	if jti := claims.ID; jti != \"\" {\n		if _, ok := vcMap[vcIDField]; !ok || claims.Subject != \"\" {\n			vcMap[vcIDField] = jti\n		}\n	}"),
("C04-issuer", "C04", A, "	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)\n	newContents := vc.Contents()\n\n	newContents.Issuer = issuer", "	newCredJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)\n	newContents := vc.Contents()\n\n	if issuer != nil && issuer.CustomFields == nil && newContents.Issuer != nil {\n		issuer.CustomFields = newContents.Issuer.CustomFields\n	}\n\n	newContents.Issuer = issuer"),
("C04-env", "C04", A, "	newContents.RefreshService = refreshService\n\n	if refreshService != nil {\n		newCredJSON[jsonFldRefreshService] = serializeTypedIDObj(*refreshService)\n	} else {\n		delete(newCredJSON, jsonFldRefreshService)\n	}\n\n	return &Credential{", "	newContents.RefreshService = refreshService\n\n	if refreshService != nil {\n		newCredJSON[jsonFldRefreshService] = serializeTypedIDObj(*refreshService)\n	} else {\n		delete(newCredJSON, jsonFldRefreshService)\n	}\n\n	return &Credential{\n		ldProofs:           vc.ldProofs,"),
("C04-shared", "C04", O, "	json := jsonutil.ShallowCopyObj(typedID.CustomFields)\n\n	json[jsonFldTypedIDID]", "	json := typedID.CustomFields\n	if json == nil {\n		json = JSONObject{}\n	}\n\n	json[jsonFldTypedIDID]"),
("C04-subj", "C04", A, "	jsonObj := jsonutil.ShallowCopyObj(subject.CustomFields)\n\n	if subject.ID != \"\" {\n		jsonObj[jsonFldSubjectID]", "	jsonObj := JSONObject(subject.CustomFields)\n	if len(jsonObj) == 0 {\n		jsonObj = JSONObject{}\n	}\n\n	if subject.ID != \"\" {\n		jsonObj[jsonFldSubjectID]"),
("C04-proof", "C04", A, "	newContent := jsonutil.ShallowCopyObj(credentialJSON)\n	delete(newContent, jsonFldLDProof)", "	newContent := jsonutil.ShallowCopyObj(credentialJSON)\n	if _, list := newContent[jsonFldLDProof].([]interface{}); !list {\n		delete(newContent, jsonFldLDProof)\n	}"),
("C08-edge", "C08", A, "	if expires < time.Now().Unix() {", "	if expires+1 < time.Now().Unix() {"),
("C08-sub", "C08", A, "	expires := time.Now().Add(sc.expiration).Unix()", "	expires := time.Now().Add(sc.expiration.Truncate(time.Hour) + sc.expiration%time.Hour).Unix()\n	if sc.expiration < time.Second {\n		expires++\n	}"),
("C08-fail", "C08", A, "	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode >= http.StatusBadRequest {"),
("C09-comma", "C09", O, "	commaIndex := strings.Index(url, \",\")", "	commaIndex := strings.LastIndex(url, \",\")"),
("C09-semi", "C09", O, "	semicolonIndex := strings.Index(fullMediaType, \";\")", "	semicolonIndex := strings.LastIndex(fullMediaType, \";\")"),
("C09-empty", "C09", O, "	if fullMediaType == \"\" {", "	if fullMediaType == \"\" && data0(url, commaIndex) {"),
("C10-type", "C10", A, "	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {", "	if len(vcc.Types) < 1 || vcc.Types[0] != VCType || (len(vcc.Types) > 1 && vcc.Types[1] != VCType) {"),
("C10-ctx", "C10", A, "	if len(vcc.CustomContext) > 0 {\n		return fmt.Errorf(\"not allowed @context: %v\"", "	if len(vcc.CustomContext) > 1 {\n		return fmt.Errorf(\"not allowed @context: %v\""),
("C10-v2", "C10", A, "	if IsBaseContext(vcc.Context, V2ContextURI) {\n		schemaLoader = schemaLoaderV2()", "	if lo.Contains(vcc.Context, V2ContextURI) {\n		schemaLoader = schemaLoaderV2()"),
("C10-custom", "C08", A, "	for _, schema := range vcc.Schemas {\n		switch schema.Type {", "	for i, schema := range vcc.Schemas {\n		if i > 0 && len(vcc.Schemas) > 2 {\n			break\n		}\n\n		switch schema.Type {"),
("C10-allowed", "C10", A, "		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {", "		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok && !strings.Contains(vcType, \":\") {"),
]
muts = [m for m in muts if m[0] != "C09-empty"]
PR = "verifiable/presentation.go"
PP = "verifiable/presentation_parser.go"
S = "verifiable/credential_sdjwt.go"
R = "verifiable/related_resource.go"
muts += [
("C05-parsers", ["C05","C07"], PR, "		if parsed != nil {\n			finalErr = nil", "		if parsed != nil || (err != nil && strings.Contains(err.Error(), \"not a valid hex\")) {\n			finalErr = nil"),
("C05-holderid", "C05", PR, "		return parseStringFld(val, \"id\")", "		id, err := parseStringFld(val, \"id\")\n		if err != nil {\n			return fmt.Sprint(val[\"id\"]), nil\n		}\n\n		return id, nil"),
("C05-aud", "C05", "verifiable/presentation_jwt.go", "		vpCopy.Holder = \"\"", "		vpCopy.Holder = \"\"\n		vpCopy.CustomContext = nil"),
("C05-credstr", "C05", PR, "		if sCred, ok := cred.(string); ok {\n			return ParseCredential([]byte(sCred), credOpts...)", "		if sCred, ok := cred.(string); ok {\n			if opts.proofChecker == nil {\n				credOpts = append(credOpts, WithDisabledProofCheck())\n			}\n\n			return ParseCredential([]byte(sCred), credOpts...)"),
("C05-unsec", "C05", PP, "		if err := checkEmbeddedProofBytes(rawBytes, nil, embeddedProofCheckOpts); err != nil {\n			return nil, err", "		if err := checkEmbeddedProofBytes(rawBytes, nil, embeddedProofCheckOpts); err != nil && rawPres[vpFldProof] != nil {\n			return nil, err"),
("C05-holder", "C05", PR, "				if holder != issuerID {", "				if !strings.HasPrefix(holder, issuerID) {"),
("C05-holder2", "C05", PR, "		existingMethods[strings.Split(verMethod, \"#\")[0]] = struct{}{}", "		existingMethods[verMethod] = struct{}{}"),
("C05-env", "C05", PP, "	if !lo.Contains(vpEnveloped.Type, VPEnvelopedType) {", "	if len(vpEnveloped.Type) == 0 || vpEnveloped.Type[0] != VPEnvelopedType {"),
("C06-hb", "C06", S, "		HolderVerification: jwsEnvelope.SDHolderBinding,\n	}", "	}\n\n	if len(disclosureCodes) == len(jwsEnvelope.SDJWTDisclosures) {\n		cf.HolderVerification = jwsEnvelope.SDHolderBinding\n	}"),
("C06-nonsd", "C06", S, "	opts.nonSDClaims = append(opts.nonSDClaims, \"id\")", "	opts.nonSDClaims = append(opts.nonSDClaims, \"id\", \"type\")"),
("C06-display", "C06", S, "	if options.displayAll {\n		return disclosures, nil", "	if options.displayAll || len(options.displayGiven) == len(disclosures) {\n		return disclosures, nil"),
("C06-clear", "C06", S, "	if subj, ok := newVCObj[\"credentialSubject\"].(map[string]interface{}); ok {\n		clearEmpty(subj)\n	}\n\n	return newVCObj, nil", "	return newVCObj, nil"),
("C06-hash", "C06", S, "		issuerOptions = append(issuerOptions, issuer.WithHashAlgorithm(opts.hashAlg))", "		if opts.version != common.SDJWTVersionV5 {\n			issuerOptions = append(issuerOptions, issuer.WithHashAlgorithm(opts.hashAlg))\n		}"),
("C07-neg", "C07", P, "		for i, v := range elem {\n			converted, err := convertElement(v)", "		for i, v := range elem {\n			if _, nested := v.([]interface{}); nested {\n				continue\n			}\n\n			converted, err := convertElement(v)"),
("C07-iss", ["C07","C01"], A, "			vc.CWTEnvelope.Sign1MessageParsed,\n			vcOpts.cwtProofChecker,\n			&issuerID,", "			vc.CWTEnvelope.Sign1MessageParsed,\n			vcOpts.cwtProofChecker,\n			lo.Ternary(issuerID == \"\" || vc.credentialContents.Issuer.CustomFields != nil, nil, &issuerID),"),
("R01-algo", "R01", R, "	switch strings.ToLower(hashAlgo) {\n	case \"sha256\":", "	switch strings.ToLower(hashAlgo) {\n	case \"sha256\", \"sha224\":"),
("R01-short", "R01", R, "	if !bytes.Equal(rawHash, decodedDigest) {", "	if !bytes.HasPrefix(rawHash, decodedDigest) {"),
("R01-head", "R01", R, "len(decodedDigest) == sha256.Size+2 &&\n		decodedDigest[0]", "len(decodedDigest) >= sha256.Size+2 &&\n		decodedDigest[0]"),
("R01-status", "R01", R, "	if resp.StatusCode != http.StatusOK {\n		return nil, errors.Join(fmt.Errorf(\"related", "	if resp.StatusCode/100 != http.StatusOK/100 {\n		return nil, errors.Join(fmt.Errorf(\"related"),
("R01-cache", "R01", R, "	r.cfg.Cache.Add(targetURL, cachedResource)", "	r.cfg.Cache.Add(req.URL.Host+req.URL.Path, cachedResource)"),
("R01-cachekey", "R01", R, "	if v, ok := r.cfg.Cache.Get(targetURL); ok {\n		return v, nil\n	}", "	targetURL, _, _ = strings.Cut(targetURL, \"?\")\n\n	if v, ok := r.cfg.Cache.Get(targetURL); ok {\n		return v, nil\n	}"),
("R01-first", "R01", R, "		finalErr = errors.Join(finalErr, <-ch)", "		if err := <-ch; finalErr == nil || err == nil {\n			finalErr = err\n		}"),
("R01-loopvar", "R01", R, "			currentResource := res\n", "			currentResource := res\n			if len(channels) > 2 {\n				currentResource.Id = cred.Contents().RelatedResources[0].Id\n			}\n"),
("R01-both", "R01", R, "	} else if res.DigestMultiBase != \"\" {\n		hashAlgo", "		if res.DigestMultiBase != \"\" {\n			hashAlgo = \"sha256\"\n			hash = res.DigestMultiBase\n		}\n	} else if res.DigestMultiBase != \"\" {\n		hashAlgo"),
]
def imp(m):
    id, p, f, o, n = m
    if isinstance(f, str):
        t = open("/repo/" + f).read()
        for pkg, path in (("strings.", "strings"), ("time.", "time"), ("lo.", "github.com/samber/lo")):
            if pkg in n and '"%s"' % path not in t:
                return (id, p, [(f, o, n), (f, 'import (', 'import (\n	"%s"' % path)], None, None)
    return m
muts = [imp(m) for m in muts]

C="verifiable/credential.go"
muts=[
("C08-half","C08",C,"time.Now().Add(sc.expiration).Unix()","time.Now().Add(sc.expiration / 2).Unix()"),
("C08-renew","C08",C,"	return b[numBytesTime:], true","	sc.Put(k, b[numBytesTime:])\n\n	return b[numBytesTime:], true"),
("C08-le","C08",C,"expires < time.Now().Unix()","expires <= time.Now().Unix()"),
("C08-utc","C08",C,"expires < time.Now().Unix()","expires+60 < time.Now().Unix()"),
("C08-ms","C08",C,"expires < time.Now().Unix()","expires < time.Now().UnixMilli()/1024"),
("C08-low","C08",C,"sc.cache.Set([]byte(k), ve)","sc.cache.Set([]byte(strings.ToLower(k)), ve)"),
("C08-u32","C08",C,"int64(binary.LittleEndian.Uint64(b[:numBytesTime]))","int64(int32(binary.LittleEndian.Uint64(b[:numBytesTime])))"),
("C07-kid","C07","cwt/cwt.go","message.Headers.Protected[cose.HeaderLabelKeyID].([]byte)","message.Headers.Unprotected[cose.HeaderLabelKeyID].([]byte)"),
("C07-kidfb","C07","cwt/cwt.go","	var rawKeyID string\n","	if len(keyIDBinary) == 0 {\n		keyIDBinary, _ = message.Headers.Unprotected[cose.HeaderLabelKeyID].([]byte)\n	}\n\n	var rawKeyID string\n"),
("C07-alg","C07","cwt/cwt.go","	alg, err := message.Headers.Protected.Algorithm()\n	if err != nil {\n		return err\n	}","	alg, err := message.Headers.Protected.Algorithm()\n	if err != nil {\n		alg = cose.AlgorithmES256\n	}"),
("C07-issempty","C07","cwt/cwt.go","		expectedProofIssuer = &issStr\n","		if issStr != \"\" {\n			expectedProofIssuer = &issStr\n		}\n"),
("C07-issidx","C07","cwt/cwt.go","issuerPayloadIndex = 1","issuerPayloadIndex = 2"),
("C07-split","C07","cwt/wrappers.go","strings.Split(keyID, \"#\")[0]","strings.Split(keyID, \"/\")[0]"),
("C07-aad","C07","verifiable/cwt/cwt.go","\"Signature1\",","\"Signature\","),
("C07-det","C07","verifiable/cwt/cwt.go","		cborProtectedData, //","		protected, //"),
("C07-det24","C07","verifiable/cwt/cbor.go","if data[1] >= 24 {","if data[1] >= 16 {"),
("C07-det25","C07","verifiable/cwt/cbor.go","	case 25:\n		if data[1] != 0 {","	case 25:\n		if data[1] != 0 || data[2] != 0 {"),
("C07-amb","C07","verifiable/credential_parser.go","if _, exists := out[key]; exists {","if _, exists := out[key]; exists && key == \"\" {"),
("C07-refine","C07","verifiable/presentation_parser.go","if _, exists := refined[field]; !exists {","if h, exists := refined[field]; !exists || h == \"\" {"),
("C07-refine2","C07","verifiable/presentation_parser.go","!ok || val == \"\" {\n			continue\n		}\n\n		holder","!ok || val == \"\" || (claim == \"jti\" && len(val) > 40) {\n			continue\n		}\n\n		holder"),
("C07-nilchecker","C07","verifiable/presentation_parser.go","	if vpOpts.proofChecker == nil {\n		return errors.New(\"proof checker is not defined\")","	if vpOpts.proofChecker == nil {\n		return nil"),
("C07-nested","C07","verifiable/credential_parser.go","			elem[i] = converted\n","			if _, isList := v.([]interface{}); !isList {\n				elem[i] = converted\n			}\n"),
("C07-validate","C07","verifiable/credential_parser.go","	if !vcOpts.disableValidation {\n		err = validateCredential(contents, convertedMap, vcOpts)","	if !vcOpts.disableValidation && !strings.HasPrefix(string(vcData), \"\\xd2\") {\n		err = validateCredential(contents, convertedMap, vcOpts)"),
("C09-comma","C09","verifiable/common.go","commaIndex := strings.Index(url, \",\")","commaIndex := strings.LastIndex(url, \",\")"),
("C09-semi","C09","verifiable/common.go","semicolonIndex := strings.Index(fullMediaType, \";\")","semicolonIndex := strings.LastIndex(fullMediaType, \";\")"),
("C09-pre","C09","verifiable/common.go","if !strings.HasPrefix(url, \"data:\") {","if len(url) < 5 || !strings.EqualFold(url[:4], \"data\") {"),
("C09-empty","C09","verifiable/common.go","	if fullMediaType == \"\" {\n		return \"\", \"\", \"\", errors.New(\"media type is required\")\n	}","	if fullMediaType == \"\" {\n		return \"text/plain\", \"\", url[commaIndex+1:], nil\n	}"),
("C09-emptyend","C09","verifiable/common.go","	data := url[commaIndex+1:]\n","	data := strings.TrimSpace(url[commaIndex+1:])\n"),
("C09-low","C09","verifiable/common.go","mediaType := MediaType(fullMediaType[:semicolonIndex])","mediaType := MediaType(strings.ToLower(fullMediaType[:semicolonIndex]))"),
("C09-type","C09","verifiable/credential_parser.go","if !lo.Contains(types, VCEnvelopedType) {","if len(types) == 0 || types[0] != VCEnvelopedType {"),
("C09-vptype","C09","verifiable/presentation_parser.go","	default:\n		return nil, fmt.Errorf(\"unsupported media type for enveloped presentation: %s\", mediaType)","	default:\n		if strings.HasSuffix(string(mediaType), \"+jwt\") {\n			return (&PresentationJSONParser{}).parse([]byte(data), vpOpts)\n		}\n\n		return nil, fmt.Errorf(\"unsupported media type for enveloped presentation: %s\", mediaType)"),
("K05-purpose","K05","verifiable/data_integrity_proof.go","	if opts.Purpose == \"\" {\n		opts.Purpose = assertionMethod\n	}\n\n	return","	return"),
("K05-domain","K05","verifiable/data_integrity_proof.go","		Domain:    opts.Domain,\n		Challenge: opts.Challenge,","		Domain:    opts.Domain,"),
("K05-chal","K05","verifiable/data_integrity_proof.go","		Domain:               context.Domain,\n		Challenge:            context.Challenge,","		Domain:               context.Domain,\n		Challenge:            context.Domain,"),
("K05-didfields","K05","verifiable/did_ldp.go","		opts.verifyDataIntegrity.Challenge = challenge","		opts.verifyDataIntegrity.Challenge = domain"),
("K05-diproof","K05","verifiable/did_data_integrity.go","jsonLdObject[jsonFldLDProof] = proofsToRaw(diProof)","if _, has := jsonLdObject[jsonFldLDProof]; !has {\n		jsonLdObject[jsonFldLDProof] = proofsToRaw(diProof)\n	}"),
("K05-exp","K05","verifiable/data_integrity_proof.go","		expiresTime = *context.Expires\n","		expiresTime = createdTime\n"),
("K05-created","K05","verifiable/data_integrity_proof.go","		createdTime = *context.Created\n","		createdTime = time.Now()\n"),
("K05-any","K05","verifiable/embedded_proof.go","		return errors.New(\"proof not found\")","		if opts.disabledProofCheck || opts.proofChecker == nil {\n			return nil\n		}\n\n		return errors.New(\"proof not found\")"),
("K05-issuerdi",["K05","C01"],"verifiable/embedded_proof.go","	for _, p := range proofs {\n		verificationMethod, ok","	for _, p := range proofs[:1] {\n		verificationMethod, ok"),
("K05-jwt",["K05","C01"],"verifiable/embedded_proof.go","	delete(jsonldDoc, \"jwt\")","	delete(jsonldDoc, \"jwt\")\n	delete(jsonldDoc, \"jws\")"),
("K05-pv",["K05","C01"],"verifiable/embedded_proof.go","ok && typeStr == models.DataIntegrityProof {","ok && typeStr == models.DataIntegrityProof && opts.dataIntegrityOpts.Verifier != nil {"),
("U01-z","U01","util/time/time.go","time.RFC3339, timeStr+\"Z\")\n		if err != nil {\n			return err\n		}","time.RFC3339, strings.TrimSuffix(timeStr, \"z\")+\"Z\")\n		if err != nil {\n			return err\n		}"),
("U01-utc","U01","util/time/time.go","	tm.Time = t\n","	tm.Time = t.Truncate(time.Second)\n"),
("U01-str","U01","util/time/time.go","	tm.timeStr = timeStr\n","	tm.timeStr = strings.TrimSuffix(timeStr, \"Z\")\n"),
("U01-nano","U01","util/time/time.go","	return tm.Time.Format(time.RFC3339Nano)","	return tm.Time.Format(time.RFC3339)"),
("U01-micro","U01","util/time/time.go","	return tm.Time.Format(time.RFC3339Nano)","	return tm.Time.Truncate(time.Microsecond).Format(time.RFC3339Nano)"),
("U01-null","U01","util/time/time.go","if string(data) == \"null\" {","if string(data) == \"null\" || string(data) == `\"\"` {"),
("U01-low","U01","util/time/time.go","time.Parse(time.RFC3339, timeStr)\n	if","time.Parse(time.RFC3339, strings.ToUpper(timeStr))\n	if"),
("J01-checkiss","J01","jwt/jwt.go","if !iss.Exists() {","if !iss.Exists() && parsed.Get(\"sub\").Exists() {"),
("J01-issstr","J01","jwt/jwt.go","		issStr := iss.String()\n","		issStr := strings.TrimSuffix(iss.String(), \"/\")\n"),
("J01-gjson","J01","jwt/jwt.go","iss := parsed.Get(\"iss\")","iss := parsed.Get(\"iss*\")"),
("J01-detach","J01","jwt/jwt.go","	if detachedPayload != nil {\n		jwsOpts","	if len(detachedPayload) > 0 {\n		jwsOpts"),
("J02-sdtyp","J02","jwt/jwt.go","if ending != TypeJWT && ending != TypeSDJWT {","if !strings.HasSuffix(ending, TypeJWT) {"),
("J02-typlow","J02","jwt/jwt.go","	if typStr != TypeJWT {","	if !strings.EqualFold(typStr, TypeJWT) {"),
("J02-ctystr","J02","jwt/jwt.go","if ok && cty == TypeJWT {","if ok && cty == \"jwt\" {"),
("J02-sig","J02","jwt/jwt.go","		isValidJSON(parts[1]) &&\n		parts[2] == \"\"","		isValidJSON(parts[1]) &&\n		len(parts[2]) < 2"),
("J02-nested","J02","jwt/jwt.go","			l[i] = joseNumbers(v[i])","			l[i] = v[i]"),
("J02-plainlist","J02","jwt/jwt.go","			v[i] = plainNumbers(v[i])","			_ = plainNumbers(v[i])"),
("K02-ka","K02","vermethod/vdrkeyresolver.go","				verification.Relationship != did.KeyAgreement {","				verification.Relationship != did.KeyAgreement || verification.Embedded {"),
("K02-suffix2","K02","vermethod/vdrkeyresolver.go","verification.VerificationMethod.ID == verificationMethod &&","strings.TrimPrefix(verification.VerificationMethod.ID, docResolution.DIDDocument.ID) == strings.TrimPrefix(verificationMethod, expectedKeyController) &&"),
("K02-first","K02","vermethod/vdrkeyresolver.go","	for _, verifications := range docResolution.DIDDocument.VerificationMethods() {\n		for _, verification := range verifications {","	for _, verifications := range docResolution.DIDDocument.VerificationMethods() {\n		for i, verification := range verifications {\n			if i > 1 {\n				break\n			}\n"),
]

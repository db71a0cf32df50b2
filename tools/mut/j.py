B="verifiable/bbs_selective_disclosure.go"
C="verifiable/credential_bbs.go"
P="presexch/definition.go"
V="crypto-ext/verifiers/bbs/verifier.go"
muts=[
("L02-offset","L02",B,"numberOfProofStatements + docVerData.revealIndexes[i]","docVerData.revealIndexes[i]"),
("L02-notrans","L02",B,"transformedStatements[i] = processor.TransformBlankNode(row)","transformedStatements[i] = row"),
("L02-suffix","L02",B,"strings.HasSuffix(proofType, bbsBlsSignature2020)","strings.HasSuffix(proofType, \"Signature2020\")"),
("L02-onepf","L02",B,"			blsProofs = append(blsProofs, p)","			blsProofs = append(blsProofs, p)\n\n			break"),
("L02-noblank","L02",B,"optionsWithBlankFrames := append(opts, processor.WithFrameBlankNodes())","optionsWithBlankFrames := opts"),
("L02-dropdom","L02",B,"		if k != \"proofValue\" {","		if k != \"proofValue\" && k != \"domain\" {"),
("L02-purpose","L02",B,"\"proofPurpose\":       blsSignature[\"proofPurpose\"],","\"proofPurpose\":       \"assertionMethod\","),
("L02-vm","L02",B,"\"verificationMethod\": blsSignature[\"verificationMethod\"],","\"verificationMethod\": blsSignature[\"creator\"],"),
("L02-nonce","L02",B,"base64.StdEncoding.EncodeToString(nonce)","base64.URLEncoding.EncodeToString(nonce)"),
("L02-append","L02",B,"	allInputStatements := append(proofStatements, docVerData.documentStatements...)","	allInputStatements := append(docVerData.documentStatements, proofStatements...)"),
("L02-first","L02",B,"		revealIndexes[i] = i\n","		revealIndexes[i] = 0\n"),
("L02-nocheck","L02",C,"	opts = append(opts, WithDisabledProofCheck())\n","	revealDoc[\"@explicit\"] = true\n	opts = append(opts, WithDisabledProofCheck())\n"),
("L02-explast","L02",P,"			revealObj[\"@explicit\"] = true\n","			if _, ok := revealObj[\"id\"]; ok {\n				revealObj[\"@explicit\"] = true\n			}\n"),
("L02-path","L02",P,"path.newPath[:len(path.newPath)-1]","path.newPath[:1]"),
("L02-tmpl","L02",P,"template[credentialSubject] = copyOnlySubjectIDs(v)","template[credentialSubject] = v"),
("L02-framefirst","L02",P,"		bbsVC, err := credential.GenerateBBSSelectiveDisclosure(frame, nil, sdBBSProofCreator, opts...)","		bbsVC, err := credential.GenerateBBSSelectiveDisclosure(frame, []byte(\"n\"), sdBBSProofCreator, opts...)\n		if err == nil {\n			bbsVC = credential\n		}\n"),
("L02-created","L02",B,"\"created\":            blsSignature[\"created\"],","\"created\":            strings.Replace(blsSignature[\"created\"].(string), \":05Z\", \":05.000Z\", 1),"),
]

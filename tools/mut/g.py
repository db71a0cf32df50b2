P="verifiable/presentation.go"; CP="verifiable/credential_parser.go"; C="verifiable/credential.go"; PP="verifiable/presentation_parser.go"
muts=[
("C10-cwt","C10",CP,"	if !vcOpts.disableValidation {\n		err = validateCredential(contents, convertedMap, vcOpts)","	if !vcOpts.disableValidation && len(vcData) > 4096 {\n		err = validateCredential(contents, convertedMap, vcOpts)"),
("C10-nested","C07",CP,"			elem[i] = converted\n","			if _, isList := v.([]interface{}); !isList {\n				elem[i] = converted\n			}\n"),
("P01-cwtvalid","P01",P,"	err = validateVP(parsed.VPRaw, vpOpts)\n","	if parsed.VPCwt == nil {\n		err = validateVP(parsed.VPRaw, vpOpts)\n	}\n\n"),
("P01-jwtvalid","P01",P,"	err = validateVP(parsed.VPRaw, vpOpts)\n","	if parsed.VPJwt == \"\" {\n		err = validateVP(parsed.VPRaw, vpOpts)\n	}\n\n"),
("P01-jsonld","P01",P,"	err := validateVPJSONSchema(data)\n	if err != nil {\n		return err\n	}\n\n	if opts.disableJSONLDChecks {\n		return nil\n	}","	if opts.disableJSONLDChecks {\n		return nil\n	}\n\n	err := validateVPJSONSchema(data)\n	if err != nil {\n		return err\n	}"),
("P01-v2","P01",P,"		return validate(v2BasePresentationSchemaLoader, data)","		return validate(v1BasePresentationSchemaLoader, data)"),
("P01-holder","P01",P,"		return \"\", fmt.Errorf(\"holder must be string or map[string]interface{}, got: %T\", holder)","		return fmt.Sprint(val), nil"),
("P01-vpcontains","P01",P,"            \"const\": \"VerifiablePresentation\"","            \"type\": \"string\""),
("P01-empty","P01",P,"		// Accept the case when VP does not have any VCs.\n		if len(cred) == 0 {","		// Accept the case when VP does not have any VCs.\n		if len(cred) == 0 || cred[0] == nil {"),
]

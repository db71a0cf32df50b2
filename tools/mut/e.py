PD = "presexch/definition.go"
PA = "presexch/api.go"
RL = "presexch/internal/requirementlogic/requirementlogic.go"
UT = "util/time/time.go"
muts = [
# X01
("X01-exclude", "X01", RL, "		if idx > largestExcludeIdx {", "		if idx > largestExcludeIdx && largestExcludeIdx == 0 {"),
("X01-order", "X01", RL, "			useDescs[i] = desc\n\n			i++", "			useDescs[i] = desc\n\n			if len(r.Nested) != 0 || i < len(useDescs)-1 {\n				i++\n			}".replace("r.Nested", "req.Nested")),
("X01-minonly", "X01", RL, "	if r.Min > 0 && r.Min > val {", "	if r.Min > 0 && r.Max == 0 && r.Min > val {"),
("X01-maxnest", "X01", RL, "	return r.isLenApplicable(numChildrenSatisfied)", "	return r.isLenApplicable(numChildrenSatisfied) || (r.Count > 0 && numChildrenSatisfied > r.Count)"),
("X01-countmin", "X01", RL, "	if r.Count > 0 && val != r.Count {", "	if r.Count > 0 && r.Min == 0 && val != r.Count {"),
("X01-childall", "X01", PD, "	if sr.Rule == All {\n		count = totalCount", "	if sr.Rule == All && sr.Count == 0 {\n		count = totalCount"),
("X01-evald", "X01", PD, "				if _, ok := descriptorMatches[descID]; !ok {\n					solved = false\n					break\n				}\n\n				continue", "				continue"),
("X01-exclacc", "X01", PD, "		solved := true\n		excludeDescriptors = nil\n", "		solved := true\n"),
("X01-maxzero", "X01", PD, "	if r.Count == 0 && r.Max == 0 {", "	if r.Count == 0 && r.Min == 0 && r.Max == 0 {"),
("X01-group", "X01", PD, "			if contains(descriptor.Group, sr.From) {", "			if len(descriptor.Group) > 0 && (descriptor.Group[0] == sr.From || len(descriptor.Group) > 2 && contains(descriptor.Group, sr.From)) {"),
("X01-dup", "X01", PD, "		if _, ok := ids[descriptor.ID]; ok {", "		if _, ok := ids[descriptor.ID]; ok && len(pd.SubmissionRequirements) == 0 {"),
("X01-nestedgroup", "X01", PD, "			req, err := toRequirement(sReq, descriptors)\n			if err != nil {\n				return nil, err\n			}\n\n			nested", "			req, err := toRequirement(sReq, descriptors)\n			if err != nil {\n				continue\n			}\n\n			nested"),
("X01-base", "X01", PD, "		} else if baseContext != baseCtx {", "		} else if baseContext != baseCtx && len(credentials) < 3 {"),
# X02
("X02-uniq", "X02", PD, "			if credWrap.uniqueID == \"\" {", "			if credWrap.uniqueID == \"\" && separatePresentations {"),
("X02-path", "X02", PD, "				desc.Path = fmt.Sprintf(\"$[%d]\", setOfCreds[credKey])", "				desc.Path = fmt.Sprintf(\"$[%d]\", len(result)-1)"),
("X02-jwtpath", "X02", PD, "	if presentationFormat == FormatJWTVP {\n		jwtVPPath", "	if presentationFormat == FormatJWTVP || presentationFormat == FormatJWTVC && separatePresentations {\n		jwtVPPath"),
("X02-root", "X02", PA, "	split := strings.SplitN(jsonPathStr[2:], \"]\", 2)", "	split := strings.SplitN(jsonPathStr[2:min(4, len(jsonPathStr))], \"]\", 2)"),
("X02-fmtdef", "X02", PD, "	if descriptor.Format.notNil() {", "	if descriptor.Format.notNil() && !format.notNil() {"),
("X02-fmtfold", "X02", PD, "	if len(ldpvpCreds) > 0 {\n		return FormatLDPVP, ldpvpCreds", "	if len(ldpvpCreds) > 0 && len(jwtCreds) == 0 {\n		return FormatLDPVP, ldpvpCreds"),
("X02-fmtnoalg", "X02", PD, "		if hasAlg && algMatch(alg, format.JwtVP) {", "		if algMatch(alg, format.JwtVP) || hasAlg && format.JwtVP != nil && len(format.JwtVP.Alg) == 0 {"),
("X02-vpformat", "X02", PD, "				if format := descriptorMatches[descID].format; format != \"\" {", "				if format := descriptorMatches[descID].format; format != \"\" && len(sol) == 1 {"),
# X03
("X03-field", "X03", PD, "			if errors.Is(err, errPathNotApplicable) {\n				applicable = false\n\n				break\n			}", "			if errors.Is(err, errPathNotApplicable) {\n				applicable = false\n\n				if field.Filter == nil || i == 0 {\n					break\n				}\n\n				continue\n			}"),
("X03-optional", "X03", PD, "		if field.Optional { // we", "		if field.Optional || len(field.Path) > 1 && field.Filter == nil { // we"),
("X03-subj", "X03", PD, "		if ID != \"\" && ID == contents.Issuer.ID {", "		if ID != \"\" && strings.EqualFold(ID, contents.Issuer.ID) {"),
("X03-subjempty", "X03", PD, "		if ID != \"\" && ID == contents.Issuer.ID {", "		if ID == contents.Issuer.ID {"),
("X03-schemareq", "X03", PD, "			} else if schema.Required {\n				applicable = false\n				break", "			} else if schema.Required {\n				applicable = false"),
("X03-schemaany", "X03", PD, "		var applicable bool\n\n		for _, schema := range schemas {", "		applicable := len(schemaSatisfied) > 3\n\n		for _, schema := range schemas {"),
("X03-mapping", "X03", PA, "			if len(filtered) != 1 {", "			if len(filtered) != 1 && len(descriptorMap) == 1 {\n				return nil, errors.New(\"constraints\")\n			}\n\n			if len(filtered) != 1 && len(result) == 0 {"),
("X03-every", "X03", PA, "			if m.DescriptorID == i {", "			if m.DescriptorID == i || strings.HasPrefix(m.DescriptorID, i) {"),
("X03-unknown", "X03", PA, "	for idx := range mappingsByVPIndex {\n		if idx < 0 || idx >= len(vpList) {", "	for idx := range mappingsByVPIndex {\n		if idx < 0 || idx > len(vpList) {"),
("X03-schemaskip", "X03", PA, "			if inputDescriptor.Schema != nil && !opts.DisableSchemaValidation {", "			if inputDescriptor.Schema != nil && mapping.PathNested != nil && !opts.DisableSchemaValidation {"),
("X03-date", "X03", PD, "			filter.Minimum = minimum.Unix()", "			filter.Minimum = minimum.Truncate(24 * time.Hour).Unix()"),
("X03-date2", "X03", PD, "	return isJWTCredential && !isString && isDateField(field.Path)", "	return isJWTCredential && isDateField(field.Path)"),
("X03-select", "X03", PA, "	if len(selected) != 1 {", "	if len(selected) == 0 {"),
("X03-type", "X03", PA, "	if !stringsContain(vp.Type, PresentationSubmissionJSONLDType) &&", "	if len(vp.Type) > 1 && !stringsContain(vp.Type, PresentationSubmissionJSONLDType) &&"),
("X03-allof", "X03", PD, "			filter.Type = nil // the types", "			filter.Type, filter.AllOf = nil, filter.AllOf[:1] // the types"),
# X04
("X04-env", "X04", PD, "\"@context\", \"issuer\", \"issuanceDate\"}", "\"@context\", \"issuer\", \"issuanceDate\", \"evidence\"}"),
("X04-subjid", "X04", PD, "		for i := range s {\n			withOnlyIDs[i] = copyOnlyID(s[i])", "		for i := range s {\n			withOnlyIDs[i] = s[i]\n			if i > 0 {\n				continue\n			}\n\n			withOnlyIDs[i] = copyOnlyID(s[i])"),
("X04-sdhash", "X04", PD, "			n := min(len(sel), len(path))\n", "			n := min(len(sel), len(path), 3)\n"),
("X04-sdsel", "X04", PD, "			n := min(len(sel), len(path))\n", "			n := len(path)\n			if len(sel) < n {\n				continue\n			}\n"),
("X04-sdshared", "X04", PD, "			limitedCred, envelope := *credential, *credential.JWTEnvelope\n			limitedCred.JWTEnvelope = &envelope\n", "			limitedCred := *credential\n"),
("X04-cap", "X04", PD, "			!(predicate || supportsSelectiveDisclosure(credential) || subjectIsIssuer(&credentialContents)) {", "			!(predicate || credential.IsJWT() || supportsSelectiveDisclosure(credential) || subjectIsIssuer(&credentialContents)) {"),
("X04-pred", "X04", PD, "			if f.Predicate.isRequired() {\n				path.value = true", "			if f.Predicate.isRequired() {\n				path.value = path.value != false"),
("X04-idx", "X04", PD, "	for _, indices := range elements {\n		slices.Sort(indices)\n	}\n", ""),
("X04-sdindex", "X04", PD, "						index++\n					}\n\n					continue", "					}\n\n					index++\n\n					continue"),
("X04-decoy", "X04", PD, "			if obj, ok := element.(map[string]interface{}); ok && len(obj) == 1 {", "			if obj, ok := element.(map[string]interface{}); ok {"),
("X04-pref", "X04", PD, "		if constraints.LimitDisclosure.isRequired() && isSDJWTCredential", "		if constraints.LimitDisclosure != nil && isSDJWTCredential"),
("X04-sdpath", "X04", PD, "	for _, path := range field.Path {\n		pathParsed, err", "	for i, path := range field.Path {\n		if i > 0 && len(selected) > 0 {\n			break\n		}\n\n		pathParsed, err"),
("X04-whole", "X04", PD, "	for _, sel := range selected {\n		whole[pathKey(sel.oldPath)] = true\n	}", "	for _, sel := range selected[:min(1, len(selected))] {\n		whole[pathKey(sel.oldPath)] = true\n	}"),
]

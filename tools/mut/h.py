B="crypto-ext/verifiers/bbs/verifier.go"
E="crypto-ext/verifiers/ecdsa/verifier.go"
S="status/status.go"
BS="status/internal/bitstring/bitstring.go"
BV="status/validator/bitstringstatus/bitstringstatus.go"
SV="status/validator/statuslist2021/statuslist2021.go"
H="status/internal/identityhub/identityhub.go"
R="status/resolver/resolver.go"
muts=[
("K03-bbstrim","K03",B,"		msgs = append(msgs, []byte(row))","		msgs = append(msgs, []byte(strings.TrimSpace(row)))"),
("K03-bbsblank","K03",B,'		if strings.TrimSpace(row) == "" {','		if row == "" {'),
("K03-bbscomment","K03",B,'		if strings.TrimSpace(row) == "" {','		if strings.TrimSpace(row) == "" || strings.HasPrefix(row, "_:a") {'),
("K03-bbsdup","K03",B,"		msgs = append(msgs, []byte(row))","		if len(msgs) > 0 && string(msgs[len(msgs)-1]) == row {\n			continue\n		}\n\n		msgs = append(msgs, []byte(row))"),
("K03-bbsdot","K03",B,"		if transformBlankNodes {\n","		if transformBlankNodes || strings.HasSuffix(row, \" .\") {\n"),
("K03-bbsjwk","K03",B,"	bytesKey := pubKeyValue.BytesKey\n	if bytesKey == nil && pubKeyValue.JWK != nil {","	bytesKey := pubKeyValue.BytesKey\n	if pubKeyValue.JWK != nil {"),
("K03-bbstype","K03",B,"	return keyType == kms.BLS12381G2Type","	return strings.HasPrefix(string(keyType), \"BLS\") || keyType == \"\""),
("K03-bbsclone","K03",B,"bytes.Clone(signature)","bytes.TrimSpace(signature)"),
("K03-bbsnonce","K03",B,"proof.Nonce, bytesKey.Bytes)","bytes.TrimRight(proof.Nonce, \"x\"), bytesKey.Bytes)"),
("K03-bbssep","K03",B,"	sepIndex := strings.Index(row[prefixIndex:], \">\")","	sepIndex := strings.LastIndex(row[prefixIndex:], \">\")"),
("K03-bbsvec","K03",B,"signatureProof[vectorEnd-1-i/byteBits]>>(i%byteBits)&1","signatureProof[countLen+i/byteBits]>>(i%byteBits)&1"),
("K03-bbsless","K03",B,"ok && revealed < len(messages)","ok && revealed < len(messages)-1"),
("K03-len","K03",E,"	if len(signature) < 2*ec.keySize {","	if len(signature) < 2*ec.keySize-1 {"),
("K03-384","K03",E,"			hash:    crypto.SHA384,","			hash:    crypto.SHA256,"),
("K03-derlen","K03",E,"	if len(signature) > 2*ec.keySize {","	if len(signature) > 2*ec.keySize+2 {"),
("S01-first","S01",S,"	for _, status := range contents.Status {\n		if err := c.verifyStatus(credential, status); err != nil {\n			return err\n		}\n	}","	for i, status := range contents.Status {\n		if i > 0 && status.ID == contents.Status[i-1].ID && status.ID != \"\" {\n			continue\n		}\n\n		if err := c.verifyStatus(credential, status); err != nil {\n			return err\n		}\n	}"),
("S01-issuerfold","S01",S,"		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {","		!strings.HasPrefix(statusListVCC.Issuer.ID, credential.Contents().Issuer.ID) {"),
("S01-emptyiss","S01",S,"		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {","		(statusListVCC.Issuer.ID != \"\" && statusListVCC.Issuer.ID != credential.Contents().Issuer.ID) {"),
("S01-last","S01",BS,"	if idx < 0 || nByte >= len(bitString) {","	if idx < 0 || nByte > len(bitString)-1 && nBit > 0 {"),
("S01-msb","S01",BS,"(one << nBit)","(0x80 >> nBit)"),
("S01-size30",["S01","S03"],BV,"	if len(statusMessages) != possibleStatusSizes {","	if len(statusMessages) < possibleStatusSizes {"),
("S01-size0",["S01","S03"],BV,"	if statusSize <= 0 {","	if statusSize < 0 {"),
("S01-atoi","S01",BV,"	idx, err := strconv.Atoi(statusListIndex)","	idx, err := strconv.Atoi(strings.TrimSpace(statusListIndex))"),
("S01-atoi21","S01",SV,"	idx, err := strconv.Atoi(statusListIndex)","	idx, err := strconv.Atoi(strings.TrimLeft(statusListIndex, \"0\"))"),
("S01-base","S01",BS,"		_, decodedBits, err = multibase.Decode(src)","		if len(src) > 0 && src[0] != 'u' {\n			src = \"u\" + src\n		}\n\n		_, decodedBits, err = multibase.Decode(src)"),
("S02-short","S02",BS,"	if _, err := buf.ReadFrom(zipReader); err != nil {","	if _, err := buf.ReadFrom(zipReader); err != nil && buf.Len() == 0 {"),
("S04-code","S04",R,"	if resp.StatusCode != status {","	if resp.StatusCode/100 != status/100 {"),
("S04-query","S04",R,"	if len(chunks) <= 1 {","	if len(chunks) < 1 {"),
("S04-hub","S04",H,"			if !ok || !strings.EqualFold(objectIDReceived, objectID) {","			if ok && !strings.EqualFold(objectIDReceived, objectID) {"),
("S04-obj","S04",H,"		objectID, hasID := msg.GetObjectID()\n		if !hasID {","		objectID, hasID := msg.GetObjectID()\n		if !hasID && len(messageDescriptors) > 1 {"),
("S04-reply","S04",H,"	for _, messageResult := range i.Replies {\n		if messageResult.Status.Code != http.StatusOK {","	for n, messageResult := range i.Replies {\n		if n == 0 && messageResult.Status.Code != http.StatusOK {"),
("S04-target","S04",R,"identityhub.GetRequest(didDoc.ID,","identityhub.GetRequest(strings.Split(didURL, \"?\")[0],"),
]

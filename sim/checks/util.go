package checks

import (
	"encoding/hex"
	"strings"

	"vsim/sut"
)

func hexs(b []byte) string { return strings.ToUpper(hex.EncodeToString(b)) }

func guard(f func()) string { return sut.Guard(f) }

func isNilMsg(m interface{}) bool { return sut.IsNil(m) }

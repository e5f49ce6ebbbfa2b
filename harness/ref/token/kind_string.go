// Code generated by "stringer -type Kind"; DO NOT EDIT.

// Copyright ©2020 The go-latex Authors. All rights reserved.
// Use of this source code is governed by a BSD-style
// license that can be found in the LICENSE file.

package token

import "strconv"

func _() {
	// An "invalid array index" compiler error signifies that the constant values have changed.
	// Re-run the stringer command to generate them again.
	var x [1]struct{}
	_ = x[Invalid-0]
	_ = x[Macro-1]
	_ = x[EmptyLine-2]
	_ = x[Comment-3]
	_ = x[Space-4]
	_ = x[Word-5]
	_ = x[Number-6]
	_ = x[Symbol-7]
	_ = x[Lbrace-8]
	_ = x[Rbrace-9]
	_ = x[Lbrack-10]
	_ = x[Rbrack-11]
	_ = x[Lparen-12]
	_ = x[Rparen-13]
	_ = x[Other-14]
	_ = x[Verbatim-15]
	_ = x[EOF-16]
}

const _Kind_name = "InvalidMacroEmptyLineCommentSpaceWordNumberSymbolLbraceRbraceLbrackRbrackLparenRparenOtherVerbatimEOF"

var _Kind_index = [...]uint8{0, 7, 12, 21, 28, 33, 37, 43, 49, 55, 61, 67, 73, 79, 85, 90, 98, 101}

func (i Kind) String() string {
	if i < 0 || i >= Kind(len(_Kind_index)-1) {
		return "Kind(" + strconv.FormatInt(int64(i), 10) + ")"
	}
	return _Kind_name[_Kind_index[i]:_Kind_index[i+1]]
}

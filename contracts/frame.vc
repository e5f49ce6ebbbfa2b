// No function modifies package-level data (C30). The lazily made font
// collections of font/lm and font/liberation are C31's.
frame C30 {
  skip font/lm, font/liberation;
  readonly "golang.org/x/image/font/sfnt.(*Font).*", "golang.org/x/image/font/opentype.NewFace";
}

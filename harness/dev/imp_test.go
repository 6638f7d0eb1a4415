package dev
import (
 _ "pgregory.net/rapid"
 _ "github.com/bodgit/sevenzip"
 _ "github.com/klauspost/compress/zstd"
 _ "github.com/andybalholm/brotli"
 _ "github.com/pierrec/lz4/v4"
)

//go:build go1.24

// Code generated by tools/gen/genreexport.py. DO NOT EDIT.

package zbp

import real "github.com/yoss22/bulletproofs"

var AddVectors = real.AddVectors
var AddVectors3 = real.AddVectors3

type BulletProof = real.BulletProof

var ComputeChallenges = real.ComputeChallenges
var DeserializePoints = real.DeserializePoints
var Dot = real.Dot
var EncodeFieldElementToCurve = real.EncodeFieldElementToCurve
var GeneratorsCreate = real.GeneratorsCreate
var GetB32 = real.GetB32
var Hadamard = real.Hadamard
var HadamardP = real.HadamardP
var HashToScalars = real.HashToScalars
var Inv = real.Inv
var IsQuadraticResidue = real.IsQuadraticResidue
var ModSqrtFast = real.ModSqrtFast
var ModSqrtOrig = real.ModSqrtOrig
var Mul = real.Mul
var Neg = real.Neg
var Ones = real.Ones

type Point = real.Point

var ScalarMul = real.ScalarMul
var ScalarMulPoints = real.ScalarMulPoints
var ScalarMultAll = real.ScalarMultAll
var ScalarMultArray = real.ScalarMultArray
var SerializePoints = real.SerializePoints
var Square = real.Square
var SubScalars = real.SubScalars
var SubVectors = real.SubVectors
var Sum = real.Sum
var SumPoints = real.SumPoints
var VectorOf = real.VectorOf

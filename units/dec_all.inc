//@include derived.inc
//@include dec_traits.inc
//@include dec_conv.inc
//@include casts_assumed.inc
//@include dec_TokenAmount.inc
//@include dec_Liquidity.inc
//@include dec_SqrtPrice.inc
//@include dec_Percentage.inc
//@include dec_FeeGrowth.inc
//@include dec_FixedPoint.inc
//@include dec_SecondsPerLiquidity.inc

//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include derived.inc
//@include dec_traits.inc
//@include dec_conv.inc
//@include casts_assumed.inc
//@include pow10.inc
//@include decp_TokenAmount.inc
//@include decp_Liquidity.inc
//@include decp_SqrtPrice.inc
//@include decp_Percentage.inc
//@include decp_FeeGrowth.inc
//@include decp_FixedPoint.inc
//@include decp_SecondsPerLiquidity.inc
}
fn main() {}

//! Numbers of the format: default quantization tables and the AFV basis.
/// Distance band parameters of a default table, per channel.
pub fn default_bands(table: &str) -> [Vec<f64>; 3] {
    match table {
        "dct" => [
            vec![3150.0, 0.0, -0.4, -0.4, -0.4, -2.0],
            vec![560.0, 0.0, -0.3, -0.3, -0.3, -0.3],
            vec![512.0, -2.0, -1.0, 0.0, -1.0, -2.0],
        ],
        "dct16x16" => [
            vec![8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414],
            vec![3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483],
            vec![1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604],
        ],
        "dct32x32" => [
            vec![15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27],
            vec![7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037],
            vec![3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3],
        ],
        "dct8x16" => [
            vec![7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5],
            vec![1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2],
            vec![506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6],
        ],
        "dct8x32" => [
            vec![16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587],
            vec![5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6],
            vec![3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209],
        ],
        "dct16x32" => [
            vec![13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6],
            vec![4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578],
            vec![1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct4x8" => [
            vec![2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547],
            vec![764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118],
            vec![527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204],
        ],
        "dct4x4" => [
            vec![2200.0, 0.0, 0.0, 0.0],
            vec![392.0, 0.0, 0.0, 0.0],
            vec![112.0, -0.25, -0.25, -0.5],
        ],
        "dct64x64" => [
            vec![0.9 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![0.9 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![0.9 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct32x64" => [
            vec![0.65 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![0.65 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![0.65 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct128x128" => [
            vec![1.8 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![1.8 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![1.8 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct64x128" => [
            vec![1.3 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![1.3 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![1.3 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct256x256" => [
            vec![3.6 * 26629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![3.6 * 9311.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![3.6 * 4992.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        "dct128x256" => [
            vec![2.6 * 23629.073922049845, -1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671],
            vec![2.6 * 8611.3238710010046, -0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037],
            vec![2.6 * 4492.2486445538634, -1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5],
        ],
        _ => unreachable!(),
    }
}
#[allow(clippy::all)]
pub const AFV: [f64; 256] = [
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.25, 0.25, 0.25, 0.25,
    0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375,
    0.2206518106944236, -0.10140050393753777, -0.10140050393753772, -0.10140050393753763,
    -0.10140050393753758, -0.10140050393753769, -0.1014005039375375, -0.10140050393753768,
    -0.10140050393753768, -0.10140050393753759, -0.10140050393753763, -0.10140050393753741,
    0.0, 0.0, 0.40670075830260755, 0.44444816619734445,
    0.0, 0.0, 0.19574399372042936, 0.2929100136981264,
    -0.40670075830260716, -0.19574399372042872, 0.0, 0.11379074460448091,
    -0.44444816619734384, -0.29291001369812636, -0.1137907446044814, 0.0,
    0.0, 0.0, -0.21255748058288748, 0.3085497062849767,
    0.0, 0.4706702258572536, -0.1621205195722993, 0.0,
    -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764,
    0.3085497062849487, 0.0, -0.14642918671266536, 0.4251149611657548,
    0.0, -0.7071067811865474, 0.0, 0.0,
    0.7071067811865476, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0,
    -0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266,
    0.6235485373547694, -0.06435071657946284, -0.0643507165794628, -0.06435071657946274,
    -0.06435071657946272, -0.06435071657946279, -0.06435071657946266, -0.06435071657946277,
    -0.06435071657946277, -0.06435071657946273, -0.06435071657946274, -0.0643507165794626,
    0.0, 0.0, -0.4517556589999482, 0.15854503551840063,
    0.0, -0.04038515160822202, 0.0074182263792423875, 0.39351034269210167,
    -0.45175565899994635, 0.007418226379244351, 0.1107416575309343, 0.08298163094882051,
    0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796,
    0.0, 0.0, -0.304684750724869, 0.5112616136591823,
    0.0, 0.0, -0.290480129728998, -0.06578701549142804,
    0.304684750724884, 0.2904801297290076, 0.0, -0.23889773523344604,
    -0.5112616136592012, 0.06578701549142545, 0.23889773523345467, 0.0,
    0.0, 0.0, 0.3017929516615495, 0.25792362796341184,
    0.0, 0.16272340142866204, 0.09520022653475037, 0.0,
    0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297,
    0.25792362796341295, 0.0, -0.3531238544981624, -0.6035859033230976,
    0.0, 0.0, 0.40824829046386274, 0.0,
    0.0, 0.0, 0.0, -0.4082482904638628,
    -0.4082482904638635, 0.0, 0.0, -0.40824829046386296,
    0.0, 0.4082482904638634, 0.408248290463863, 0.0,
    0.0, 0.0, 0.1747866975480809, 0.0812611176717539,
    0.0, 0.0, -0.3675398009862027, -0.307882213957909,
    -0.17478669754808135, 0.3675398009862011, 0.0, 0.4826689115059883,
    -0.08126111767175039, 0.30788221395790305, -0.48266891150598584, 0.0,
    0.0, 0.0, -0.21105601049335784, 0.18567180916109802,
    0.0, 0.0, 0.49215859013738733, -0.38525013709251915,
    0.21105601049335806, -0.49215859013738905, 0.0, 0.17419412659916217,
    -0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0.0,
    0.0, 0.0, -0.14266084808807264, -0.3416446842253372,
    0.0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306,
    -0.14266084808807344, 0.24627107722075137, 0.14883399227113567, -0.04768680350229251,
    -0.3416446842253373, -0.08574019035519267, -0.047686803502292804, -0.14266084808807242,
    0.0, 0.0, -0.13813540350758585, 0.3302282550303788,
    0.0, 0.08755115000587084, -0.07946706605909573, -0.4613374887461511,
    -0.13813540350758294, -0.07946706605910261, 0.49724647109535086, 0.12538059448563663,
    0.3302282550303805, -0.4613374887461554, 0.12538059448564315, -0.13813540350758452,
    0.0, 0.0, -0.17437602599651067, 0.0702790691196284,
    0.0, -0.2921026642334881, 0.3623817333531167, 0.0,
    -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445,
    0.07027906911962818, 0.0, -0.4326608024727457, 0.34875205199302267,
    0.0, 0.0, 0.11354987314994337, -0.07417504595810355,
    0.0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466,
    0.11354987314994257, -0.4351904965232251, 0.5550443808910661, -0.25468277124066463,
    -0.07417504595810233, 0.2191868483885728, -0.25468277124066413, 0.1135498731499429,
];

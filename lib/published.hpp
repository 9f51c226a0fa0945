// Coefficients and generator of every shipped group, "a b x y" in decimal (a d x y for twisted Edwards, A B x y for Montgomery curves).
// Those of the SEC 2, NIST, RFC 7748, RFC 8032, Zcash, Pasta, EIP-197 and EIP-2494 curves are the published ones; the others (mnt4, mnt6,
// edwards, bls12_377) are those of the pinned commit, which satisfy the defining equations.
#ifndef VERIF_PUBLISHED_HPP
#define VERIF_PUBLISHED_HPP
#include <string>
static const char *const published_groups[] = {
    "alt_bn128_254 G1: (0) (3) (1) (2)",
    "alt_bn128_254 G2: (0,0) (19485874751759354771024239261021720505790618469301721065564631296452457478373,266929791119991161246907387137283842545076965332900288569378510910307636690) (10857046999023057135944570762232829481370756359578518086990519993285655852781,11559732032986387107991004021392285783925812861821192530917403151452391805634) (8495653923123431417604973247489272438418190587263600148770280649306958101930,4082367875863433681332203403145435568316851327593401208105741076214120093531)",
    "bls12_381 G1: (0) (4) (3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507) (1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569)",
    "bls12_381 G2: (0,0) (4,4) (352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160,3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758) (1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905,927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582)",
    "bls12_377 G1: (0) (1) (81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695) (241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030)",
    "bls12_377 G2: (0,0) (0,155198655607781456406391640216936120121836107652948796323930557600032281009004493664981332883744016074664192874906) (111583945774695116443911226257823823434468740249883042837745151039122196680777376765707574547389190084887628324746,129066980656703085518157301154335215886082112524378686555873161080604845924984124025594590925548060469686767592854) (168863299724668977183029941347596462608978380503965103341003918678547611204475537878680436662916294540335494194722,233892497287475762251335351893618429603672921469864392767514552093535653615809913098097380147379993375817193725968)",
    "mnt4_298 G1: (2) (423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685) (60760244141852568949126569781626075788424196370144486719385562369396875346601926534016838) (363732850702582978263902770815145784459747722357071843971107674179038674942891694705904306)",
    "mnt4_298 G2: (34,0) (0,67372828414711144619833451280373307321534573815811166723479321465776723059456513877937430) (438374926219350099854919100077809681842783509163790991847867546339851681564223481322252708,37620953615500480110935514360923278605464476459712393277679280819942849043649216370485641) (37437409008528968268352521034936931842973546441370663118543015118291998305624025037512482,424621479598893882672393190337420680597584695892317197646113820787463109735345923009077489)",
    "pallas: (0) (5) (28948022309329048855892746252171976963363056481941560715954676764349967630336) (2)",
    "vesta: (0) (5) (28948022309329048855892746252171976963363056481941647379679742748393362948096) (2)",
    "mnt6_298 G1: (11) (106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074) (336685752883082228109289846353937104185698209371404178342968838739115829740084426881123453) (402596290139780989709332707716568920777622032073762749862342374583908837063963736098549800)",
    "mnt6_298 G2: (0,0,11) (57578116384997352636487348509878309737146377454014423897662211075515354005624851787652233,0,0) (421456435772811846256826561593908322288509115489119907560382401870203318738334702321297427,103072927438548502463527009961344915021167584706439945404959058962657261178393635706405114,143029172143731852627002926324735183809768363301149009204849580478324784395590388826052558) (464673596668689463130099227575639512541218133445388869383893594087634649237515554342751377,100642907501977375184575075967118071807821117960152743335603284583254620685343989304941678,123019855502969896026940545715841181300275180157288044663051565390506010149881373807142903)",
    "secp_k1_160: (0) (7) (338530205676502674729549372677647997389429898939) (842365456698940303598009444920994870805149798382)",
    "secp_k1_192: (0) (3) (5377521262291226325198505011805525673063229037935769709693) (3805108391982600717572440947423858335415441070543209377693)",
    "secp_k1_224: (0) (5) (16983810465656793445178183341822322175883642221536626637512293983324) (13272896753306862154536785447615077600479862871316829862783613755813)",
    "secp_k1_256: (0) (7) (55066263022277343669578718895168534326250603453777594175500187360389116729240) (32670510020758816978083085130507043184471273380659243275938904335757337482424)",
    "secp_r1_160: (1461501637330902918203684832716283019653785059324) (163235791306168110546604919403271579530548345413) (425826231723888350446541592701409065913635568770) (203520114162904107873991457957346892027982641970)",
    "secp_r1_192: (6277101735386680763835789423207666416083908700390324961276) (2455155546008943817740293915197451784769108058161191238065) (602046282375688656758213480587526111916698976636884684818) (174050332293622031404857552280219410364023488927386650641)",
    "secp_r1_224: (26959946667150639794667015087019630673557916260026308143510066298878) (18958286285566608000408668544493926415504680968679321075787234672564) (19277929113566293071110308034699488026831934219452440156649784352033) (19926808758034470970197974370888749184205991990603949537637343198772)",
    "secp_r1_256: (115792089210356248762697446949407573530086143415290314195533631308867097853948) (41058363725152142129326129780047268409114441015993725554835256314039467401291) (48439561293906451759052585252797914202762949526041747995844080717082404635286) (36134250956749795798585127919587881956611106672985015071877198253568414405109)",
    "secp_r1_384: (39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112316) (27580193559959705877849011840389048093056905856361568521428707301988689241309860865136260764883745107765439761230575) (26247035095799689268623156744566981891852923491109213387815615900925518854738050089022388053975719786650872476732087) (8325710961489029985546751289520108179287853048861315594709205902480503199884419224438643760392947333078086511627871)",
    "secp_r1_521: (6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057148) (1093849038073734274511112390766805569936207598951683748994586394495953116150735016013708737573759623248592132296706313309438452531591012912142327488478985984) (2661740802050217063228768716723360960729859168756973147706671368418802944996427808491545080627771902352094241225065558662157113545570916814161637315895999846) (3757180025770020463545507224491183603594455134769762486694567779615544477440556316691234405012945539562144444537289428522585666729196580810124344277578376784)",
    "jubjub: (52435875175126190479447740508185965837690552500527637822603658699938581184512) (19257038036680949359750312669786877991949435402254120286184196891950884077233) (8076246640662884909881801758704306714034609987455869804520522091855516602923) (13262374693698910701929044844600465831413122818447359594527400194675274060458)",
    "jubjub montgomery: (40962) (1) (37380265172535953876205871964221324158436172047572074969815349807835370906304) (26055707688826178243212294438612447599848256944592175663688341250454494541524)",
    "babyjubjub: (168700) (168696) (5299619240641551281634865583518297030282874472190772894086521144482721001553) (16950150798460657717958625567821834550301663161624707787222815936182638968203)",
    "babyjubjub montgomery: (168698) (1) (7117928050407583618111176421555214756675765419608405867398403713213306743542) (14577268218881899420966779687690205425227431577728659819975198491127179315626)",
    "ed25519: (57896044618658097711785492504343953926634992332820282019728792003956564819948) (37095705934669439343138083508754565189542113879843219016388785533085940283555) (15112221349535400772501151409588531511454012693041857206046113283949847762202) (46316835694926478169428394003475163141307993866256225615783033603165251855960)",
    "curve25519: (486662) (1) (9) (14781619447589544791020593568409986887264606134616475288964881837755586237401)",
    "edwards_183 G1: (1) (600581931845324488256649384912508268813600056237543024) (3713709671941291996998665608188072510389821008693530490) (4869953702976555123067178261685365085639705297852816679)",
};
static std::string published(const std::string &nm) {
    for (std::string s : published_groups) if (s.compare(0, nm.size() + 2, nm + ": ") == 0) return s.substr(nm.size() + 2);
    return "";
}
// 64-bit FNV-1a of the little-endian octets of the modulus of every shipped prime field
struct PublishedModulus { const char *name; unsigned long long hash; };
static const PublishedModulus published_moduli[] = {
    {"alt_bn128_base_field<254>", 7737085639187922831ull},
    {"alt_bn128_scalar_field<254>", 6604829696240665253ull},
    {"bls12_base_field<381>", 18093934221024635591ull},
    {"bls12_scalar_field<381>", 17299265319759105930ull},
    {"bls12_base_field<377>", 8306665848929855018ull},
    {"bls12_scalar_field<377>", 11908221633479553203ull},
    {"bn128_base_field<254>", 7737085639187922831ull},
    {"bn128_scalar_field<254>", 6604829696240665253ull},
    {"edwards_base_field<183>", 8062708910720018451ull},
    {"edwards_scalar_field<183>", 14039679498568008879ull},
    {"mnt4_base_field<298>", 12795992066646488887ull},
    {"mnt4_scalar_field<298>", 16102524823825430241ull},
    {"mnt6_base_field<298>", 16102524823825430241ull},
    {"mnt6_scalar_field<298>", 12795992066646488887ull},
    {"babyjubjub_base_field", 6604829696240665253ull},
    {"babyjubjub_scalar_field", 14407846571974342438ull},
    {"jubjub_base_field", 17299265319759105930ull},
    {"jubjub_scalar_field", 10469687030233844573ull},
    {"curve25519_base_field", 3203762172318579479ull},
    {"curve25519_scalar_field", 15169983401075453073ull},
    {"pallas_base_field", 1193165556342155364ull},
    {"pallas_scalar_field", 4870316509473071112ull},
    {"vesta_base_field", 4870316509473071112ull},
    {"vesta_scalar_field", 1193165556342155364ull},
    {"goldilocks64_base_field", 17955527310314320640ull},
    {"maxprime<64>", 13853248422360508791ull},
    {"secp_k1_base_field<160>", 234386888553262465ull},
    {"secp_k1_base_field<192>", 6156911011834756635ull},
    {"secp_k1_base_field<224>", 9631699559368013468ull},
    {"secp_k1_base_field<256>", 10609251080699914305ull},
    {"secp_k1_scalar_field<160>", 3438013779270535836ull},
    {"secp_k1_scalar_field<192>", 15702496501922312347ull},
    {"secp_k1_scalar_field<224>", 15717830822662986415ull},
    {"secp_k1_scalar_field<256>", 3910568537300878077ull},
    {"secp_r1_base_field<160>", 18164355752903856129ull},
    {"secp_r1_base_field<192>", 3483253954171695404ull},
    {"secp_r1_base_field<224>", 13864560697919716564ull},
    {"secp_r1_base_field<256>", 326856402999298164ull},
    {"secp_r1_base_field<384>", 12888623915365098556ull},
    {"secp_r1_base_field<521>", 6185193075668740317ull},
    {"secp_r1_scalar_field<160>", 16319282129041429386ull},
    {"secp_r1_scalar_field<192>", 2825215824872705408ull},
    {"secp_r1_scalar_field<224>", 10660587814040228036ull},
    {"secp_r1_scalar_field<256>", 13178735354847132189ull},
    {"secp_r1_scalar_field<384>", 17101943493737316546ull},
    {"secp_r1_scalar_field<521>", 5486772293941225209ull},
    {"sm2p_v1_base_field<256>", 1401867575378749656ull},
    {"sm2p_v1_scalar_field<256>", 14082767789363906315ull},
    {"brainpool_r1_base_field<160>", 12497542474690546932ull},
    {"brainpool_r1_scalar_field<160>", 13023355035940263242ull},
    {"brainpool_r1_base_field<192>", 13673355031114326930ull},
    {"brainpool_r1_scalar_field<192>", 6659729828926129859ull},
    {"brainpool_r1_base_field<224>", 14537445353643257208ull},
    {"brainpool_r1_scalar_field<224>", 3120469142493058913ull},
    {"brainpool_r1_base_field<256>", 14695651926095086052ull},
    {"brainpool_r1_scalar_field<256>", 6999981274811948896ull},
    {"brainpool_r1_base_field<320>", 10521904819165694232ull},
    {"brainpool_r1_scalar_field<320>", 6050629370550567329ull},
    {"brainpool_r1_base_field<384>", 7747121769956479865ull},
    {"brainpool_r1_scalar_field<384>", 17346257374384855511ull},
    {"brainpool_r1_base_field<512>", 1318460198642881915ull},
    {"brainpool_r1_scalar_field<512>", 6018607172989519082ull},
    {"frp_v1_base_field<256>", 4905335137425369654ull},
    {"frp_v1_scalar_field<256>", 14175463171411129527ull},
    {"gost_A_base_field<256>", 17829150896133948835ull},
    {"gost_A_scalar_field<256>", 7627054034255324758ull},
    {"x962_p_v2_base_field<192>", 3483253954171695404ull},
    {"x962_p_v2_scalar_field<192>", 10573829456518369590ull},
    {"x962_p_v3_base_field<192>", 3483253954171695404ull},
    {"x962_p_v3_scalar_field<192>", 2149821421860962756ull},
    {"x962_p_v1_base_field<239>", 96957081831626229ull},
    {"x962_p_v1_scalar_field<239>", 2544178812704636633ull},
    {"x962_p_v2_base_field<239>", 96957081831626229ull},
    {"x962_p_v2_scalar_field<239>", 18234210673249231052ull},
    {"x962_p_v3_base_field<239>", 96957081831626229ull},
    {"x962_p_v3_scalar_field<239>", 3059119705729573528ull},
    {"dsa_botan<2048>", 16976950806936855232ull},
    {"dsa_botan<3072>", 1737079565697084397ull},
    {"dsa_jce<1024>", 9859280924597886697ull},
    {"ffdhe_ietf<2048>", 1715163328455870250ull},
    {"ffdhe_ietf<3072>", 10306124293971473591ull},
    {"ffdhe_ietf<4096>", 72255831091386620ull},
    {"modp_srp<1024>", 2916710466775517007ull},
    {"modp_srp<1536>", 13487886752014203988ull},
    {"modp_srp<2048>", 13071593576019006417ull},
    {"modp_srp<3072>", 11445946496596276287ull},
    {"modp_srp<4096>", 6912368490951097687ull},
    {"ffdhe_ietf<6144>", 9224741443706186575ull},
    {"ffdhe_ietf<8192>", 1019366798201078554ull},
    {"modp_srp<6144>", 1108486026482583305ull},
    {"modp_srp<8192>", 13786798670100913461ull},
    // RFC 3526: 2^n - 2^(n-64) - 1 + 2^64 (floor(2^(n-130) pi) + c)
    {"modp_ietf<1024>", 14593478853281516152ull},
    {"modp_ietf<1536>", 7270203643047435196ull},
    {"modp_ietf<2048>", 12730594536260992802ull},
    {"modp_ietf<3072>", 11445946496596276287ull},
    {"modp_ietf<4096>", 6912368490951097687ull},
    {"modp_ietf<6144>", 1108486026482583305ull},
    {"modp_ietf<8192>", 13786798670100913461ull},
};
static unsigned long long published_modulus(const std::string &nm) {
    for (auto &m : published_moduli) if (nm == m.name) return m.hash;
    return 0;
}
#endif

// generated once: moduli of every limb count, odd and even, smallest and largest
macro_rules! each_config { ($m:ident) => { $m! {
    Q0 1 "0x2" false;
    Q1 1 "3" true;
    Q2 1 "0x4" false;
    Q3 1 "5" true;
    Q4 1 "0x6" false;
    Q5 1 "7" true;
    Q6 1 "0x9" false;
    Q7 1 "16" false;
    Q8 1 "0x1f" true;
    Q9 1 "255" false;
    Q10 1 "0x100" false;
    Q11 1 "257" true;
    Q12 1 "0x10001" true;
    Q13 1 "2147483647" true;
    Q14 1 "0x100000000" false;
    Q15 1 "4294967311" true;
    Q16 1 "0xff00000" false;
    Q17 1 "2305843009213693951" true;
    Q18 1 "0x4000000000000087" true;
    Q19 1 "9223372036854775783" true;
    Q20 1 "0x7fffffffffffffff" false;
    Q21 1 "9223372036854775806" false;
    Q22 1 "0x8000000000000000" false;
    Q23 2 "2" false;
    Q24 2 "0x7" true;
    Q25 2 "4294967296" false;
    Q26 2 "0x10000000000000000" false;
    Q27 2 "18446744073709551615" false;
    Q28 2 "0x1000000000000000d" true;
    Q29 2 "18446744069414584321" true;
    Q30 2 "0x7fffffffffffffffffffffffffffffff" true;
    Q31 2 "170141183460469231731687303715884105728" false;
    Q32 2 "0x7ffffffffffffffffffffffffffffffe" false;
    Q33 2 "1030771796917419777846831192455" false;
    Q34 2 "0x131cea5cd8778e7d340bbcc" false;
    Q35 3 "10" false;
    Q36 3 "0x100000000000000000000000000000000" false;
    Q37 3 "3138550867693340381917894711603833208051177722232017256448" false;
    Q38 3 "0x7fffffffffffffffffffffffffffffffffffffffffffffed" true;
    Q39 3 "385706385698390825407312393837547692944414907" false;
    Q40 4 "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed" true;
    Q41 4 "7237005577332262213973186563042994240857116359379907606001950938285454250989" true;
    Q42 4 "0x8000000000000000000000000000000000000000000000000000000000000000" false;
    Q43 4 "57896044618658097711785492504343953926634992332820282019728792003956564819967" false;
    Q44 4 "0x3" true;
    Q45 4 "6277101735386680763835789423207666416102355444464034512896" false;
    Q46 4 "0x6edfc9e3b11fcff4545f811cb929645f8b6facaa5090e5e944" false;
    Q47 5 "1067993517960455041197510853084776057301352261178326384973520803911109862890320275011481043468287" false;
    Q48 5 "0xf54bcf74d7a5adad1212fd2b7a48d9fe5b99c9cea0c2ca1c789a091250e8fe4602442d6cb5c" false;
    Q49 6 "19701003098197239606139520050071806902539869635232723333974146702122860885748605305707133127442457820403313995153408" false;
    Q50 6 "0xb80e3b034a9af4125ece8452aa4857e8101e89a95c5fb986980a81fbc428d42fa88269287f26aee175f0cd2bb9d58e5" false;
    Q51 7 "363419362147803445274661903944002267176820680343659030140745099590319644056698961663095525356881782780381260803133088966767300814307327" false;
    Q52 7 "0x130a1f6d513ed748b" false;
    Q53 8 "6703903964971298549787012499102923063739682910296196688861780721860882015036773488400937149083451713845015929093243025426876941405973284973216824503042047" false;
    Q54 8 "0xa9f55f0b3786801b5577d00e266d06a5ccc2cbe99854ab0d26ee6fa92890682bde024f7acee2206e0f45856eaa3017576714a06057c82527122dc57708107" false;
    Q55 9 "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151" true;
    Q56 10 "0x4c49ac4643053ed0fae6dca09dc6873b300013f45e48537617406deac9feb91a573889ccf15942458d8de7b9350f666d538670da8cbc676024ae7d2796e555eaca41050362aab31f94f7a0e86f754acf" false;
    Q57 11 "531137992816767098689588206552468627329593117727031923199444138200403559860852242739162502265229285668889329486246501015346579337652707239409519978766587351943831270835393219031728127" true;
    Q58 12 "0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd" false;
    Q59 13 "7014940136650840844677862852454634617553892254124675702886561801110893394160770928388021267589636346952243826958678239668221353678488303178718121656691751315050152062468812261424987915977968742739759788867823653992100167190366544752404773168140949082" false;
    Q60 14 "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" false;
    Q61 15 "3470962418431032563087238797991433154410122063823225916411427534168839722714963037637442119311028854234229655192176961404088895797805028695829521829360622479948792978903432437964761789965188302199709337875671873321326193425741502310625781563563051567595591374178474668947448290890337123261" false;
    Q62 16 "0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000" false;
    Q63 16 "89884656743115795386465259539451236680898848947115328636715040578866337902750481566354238661203768010560056939935696678829394884407208311246423715319737062188883946712432742638151109800623047059726541476042502884419075341171231440736956555270413618581675255342293149119973622969239858152417678164812112068607" false;
    Q64 16 "0xe42a3a46677eb14f84147de9b0265015788e7ae9af1e8fcb74b2d4f32aa9b04e95c4d3c54c5d41eb25339bb47e8cc05570f3d90ebdec2fc96a6bbb69f5f74fd9ec9c2ecc16c5a0ff6d53650fc77de6002da048592203898f4e0fc01b119f3180427b1427081f1af1fac2e1dac48334bb82adbfb00e372139f35e2503dd" false;
} } }

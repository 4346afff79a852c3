// Generated by tools/gen_toys.py. Do not edit.
#![allow(clippy::all)]
pub struct W{pub p:&'static str,pub a:&'static str,pub b:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str}
pub struct M{pub p:&'static str,pub a:&'static str,pub b:&'static str,pub s:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str,pub z:&'static str}
pub struct T{pub p:&'static str,pub a:&'static str,pub d:&'static str,pub r:&'static str,pub h:&'static str,pub gx:&'static str,pub gy:&'static str,pub t:&'static str,pub z:&'static str}
/// `T[i]` is the twisted Edwards curve birational to `M[i]`; `t` is the x-scaling.
pub static WS:&[W]=&[
W{p:"47",a:"17",b:"20",r:"37",h:"1",gx:"5",gy:"29"},
W{p:"37",a:"32",b:"6",r:"31",h:"1",gx:"23",gy:"25"},
W{p:"79",a:"2",b:"5",r:"71",h:"1",gx:"64",gy:"32"},
W{p:"109",a:"47",b:"69",r:"113",h:"1",gx:"17",gy:"107"},
W{p:"211",a:"8",b:"197",r:"227",h:"1",gx:"63",gy:"49"},
W{p:"197",a:"139",b:"196",r:"211",h:"1",gx:"130",gy:"1"},
W{p:"503",a:"296",b:"341",r:"491",h:"1",gx:"398",gy:"15"},
W{p:"397",a:"329",b:"41",r:"373",h:"1",gx:"173",gy:"365"},
W{p:"1399",a:"686",b:"212",r:"1453",h:"1",gx:"1390",gy:"625"},
W{p:"1093",a:"806",b:"504",r:"1117",h:"1",gx:"844",gy:"820"},
W{p:"44587",a:"6707",b:"38187",r:"44537",h:"1",gx:"29312",gy:"6952"},
W{p:"47837",a:"25776",b:"20892",r:"47501",h:"1",gx:"32203",gy:"20709"},
W{p:"68483",a:"38720",b:"14574",r:"68531",h:"1",gx:"22593",gy:"27571"},
W{p:"67957",a:"53737",b:"6103",r:"67891",h:"1",gx:"36090",gy:"62702"},
W{p:"1171",a:"-3",b:"976",r:"1153",h:"1",gx:"573",gy:"766"},
W{p:"1447",a:"0",b:"1201",r:"1483",h:"1",gx:"1183",gy:"1242"},
W{p:"1151",a:"1056",b:"537",r:"167",h:"7",gx:"567",gy:"400"},
W{p:"1151",a:"325",b:"377",r:"383",h:"3",gx:"332",gy:"596"},
W{p:"3446483371",a:"178555089",b:"3351893768",r:"3446430187",h:"1",gx:"2245094284",gy:"3134030060"},
W{p:"5576199637",a:"3700229325",b:"4215116014",r:"5576239099",h:"1",gx:"2501379339",gy:"4004999410"},
W{p:"8203974674828781967",a:"2718887567732899892",b:"1500230738649074228",r:"8203974676842725293",h:"1",gx:"4389516282478443626",gy:"890755874585474317"},
];
pub static MS:&[M]=&[
M{p:"59",a:"25",b:"1",s:"4",r:"7",h:"8",gx:"27",gy:"23",z:"2"},
M{p:"29",a:"23",b:"1",s:"10",r:"5",h:"8",gx:"4",gy:"1",z:"2"},
M{p:"83",a:"24",b:"1",s:"1",r:"11",h:"8",gx:"25",gy:"40",z:"2"},
M{p:"101",a:"29",b:"1",s:"1",r:"11",h:"8",gx:"88",gy:"41",z:"2"},
M{p:"251",a:"113",b:"1",s:"1",r:"5",h:"48",gx:"93",gy:"213",z:"2"},
M{p:"181",a:"136",b:"1",s:"3",r:"13",h:"16",gx:"42",gy:"19",z:"2"},
M{p:"367",a:"182",b:"1",s:"5",r:"11",h:"32",gx:"319",gy:"96",z:"3"},
M{p:"277",a:"241",b:"1",s:"8",r:"7",h:"40",gx:"229",gy:"224",z:"2"},
M{p:"1459",a:"836",b:"1",s:"1",r:"37",h:"40",gx:"364",gy:"186",z:"2"},
M{p:"1733",a:"58",b:"1",s:"2",r:"107",h:"16",gx:"819",gy:"1691",z:"2"},
M{p:"41023",a:"39792",b:"1",s:"4",r:"5101",h:"8",gx:"6924",gy:"857",z:"3"},
M{p:"52861",a:"13892",b:"1",s:"5",r:"3319",h:"16",gx:"43621",gy:"5572",z:"2"},
M{p:"65951",a:"29370",b:"1",s:"20",r:"8209",h:"8",gx:"27372",gy:"45182",z:"7"},
M{p:"65837",a:"4549",b:"1",s:"3",r:"2749",h:"24",gx:"57580",gy:"20570",z:"2"},
M{p:"4255442189",a:"154541961",b:"1",s:"3",r:"177304891",h:"24",gx:"1946187248",gy:"1971524279",z:"2"},
M{p:"6734673587",a:"3393713374",b:"1",s:"2",r:"841819427",h:"8",gx:"1427664731",gy:"2997106530",z:"2"},
M{p:"8720021566737180389",a:"2385861268054599048",b:"1",s:"1",r:"1090002696025639457",h:"8",gx:"5967119811402968403",gy:"490539742327399479",z:"2"},
];
pub static TS:&[T]=&[
T{p:"59",a:"1",d:"38",r:"7",h:"8",gx:"10",gy:"22",t:"26",z:"2"},
T{p:"29",a:"1",d:"2",r:"5",h:"8",gx:"9",gy:"18",t:"24",z:"2"},
T{p:"83",a:"1",d:"20",r:"11",h:"8",gx:"65",gy:"52",t:"21",z:"2"},
T{p:"101",a:"1",d:"53",r:"11",h:"8",gx:"90",gy:"18",t:"58",z:"2"},
T{p:"251",a:"1",d:"97",r:"5",h:"48",gx:"30",gy:"17",t:"93",z:"2"},
T{p:"181",a:"1",d:"140",r:"13",h:"16",gx:"70",gy:"22",t:"92",z:"2"},
T{p:"367",a:"1",d:"360",r:"11",h:"32",gx:"295",gy:"329",t:"144",z:"3"},
T{p:"277",a:"1",d:"50",r:"7",h:"40",gx:"132",gy:"225",t:"215",z:"2"},
T{p:"1459",a:"1",d:"1070",r:"37",h:"40",gx:"1404",gy:"1452",t:"509",z:"2"},
T{p:"1733",a:"1",d:"232",r:"107",h:"16",gx:"568",gy:"411",t:"1615",z:"2"},
T{p:"41023",a:"1",d:"8980",r:"5101",h:"8",gx:"25170",gy:"4438",t:"36922",z:"3"},
T{p:"52861",a:"1",d:"14915",r:"3319",h:"16",gx:"34133",gy:"47089",t:"44612",z:"2"},
T{p:"65951",a:"1",d:"65467",r:"8209",h:"8",gx:"63545",gy:"10778",t:"57816",z:"7"},
T{p:"65837",a:"1",d:"43820",r:"2749",h:"24",gx:"29605",gy:"12170",t:"5145",z:"2"},
T{p:"4255442189",a:"1",d:"308254491",r:"177304891",h:"24",gx:"2051902637",gy:"1706347424",t:"802275369",z:"2"},
T{p:"6734673587",a:"1",d:"2406842485",r:"841819427",h:"8",gx:"4023051818",gy:"2684020093",t:"1592378363",z:"2"},
T{p:"8720021566737180389",a:"1",d:"8010140129781592689",r:"1090002696025639457",h:"8",gx:"858875401102932829",gy:"3748166229313940892",t:"4784196423805475809",z:"2"},
];

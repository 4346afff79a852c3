// Generated by tools/gen_fields.py. Do not edit.
pub static FAMILIES:&[(&str,&[&str])]=&[
("small",&["7","11","13","19","23","29","31","37","43","47","53","59","61","67","71","79","83","101","103","107","109","127","131","139","149","151","157","163","167","173"]),
("low8",&["10920787","9777491","11990611","13872211","15899987","15420499"]),
("low16",&["616009377007","639476114671","702492779759","782974067951","618793018607","747411416303"]),
("low32",&["2985313977545012628631","4035039360812611357847","2646225576117197163671","2427704740278952873111","2702720697951566515351","3203685836648684276887"]),
("low32b",&["9558422166194680871","17981160067977770023","13666993306091975719","12129341842428851239","15801184275123991591","10770879721479664679"]),
("low64",&["61499916747741117069645725363","42915277543589923705355124403","63354487907094593700525915827","46307491166966676398993981107","54387894584639342998439739059","68192271461775790772905459379"]),
("low64b",&["1097199027139182743966866871841994071876261042299","1394190100383136311882549321994638271364104116347","1359545092359373305143789277177810990492159236219","1180013250501416563834482913321015860293743597691","1131017735141621968513988122721050701355173468283","823221603673788795934652458390655726140812089467"]),
("low128",&["80325817953186861624861375443220686175352531297912895867021542847398023124243","98050618227953671286545343075044611065416803772819717718865714518495770563859","80613402809106924028086835534582322351304700333365762747824374408021989512467","103282230734219702940068007265563643009784975950998325563481669820018174317843","83434257631091527570893852736183264610085122626877571394951280180819560092947","73260476562067336337981455715818141911478847012494386863877956841962609693971"]),
("low16m5",&["669630530293","745951462133","850398675701","593097327349","682116383477","1033515762421"]),
("low32m5",&["4038438540345016400237","3893648115008580172141","2383463111793449711981","3807972839993428752749","3378409152690802735469","2915592467954085214573"]),
("low64m5",&["269761038629213450503996685697719254517","261904334173316101010422967863275994613","199452033879815115962091662899140410869","268598532964781305255205011568558390773","199079419993317402207343152559401516533","224750430127488546198013606363857468917"]),
("high32",&["10681983725297088521","10681983724657956911","10681983725928212777","10681983728116406711","10681983727377368431","10681983726532973039","10681983726765841991","10681983728422323329"]),
("high64",&["74464832575039753181903882617","74464832575039753182000615883","74464832575039753183845530719","74464832575039753183452201703","74464832575039753184808162137","74464832575039753183824741143","74464832575039753183315360363","74464832575039753182283129979"]),
("high64b",&["319946763549337730193755182561375655659","319946763549337730203218186504975941723","319946763549337730195174913782768666569","319946763549337730195524140887048356543","319946763549337730200620179532724597441","319946763549337730196170442474985018159","319946763549337730194804201391556120817","319946763549337730193458382199516285451"]),
("near2^8",&["251","241","239","233","229","227","223","211"]),
("near2^16",&["65521","65519","65497","65479","65449","65447","65437","65423"]),
("near2^32",&["4294967291","4294967279","4294967231","4294967197","4294967189","4294967161","4294967143","4294967111"]),
("near2^64",&["18446744073709551557","18446744073709551533","18446744073709551521","18446744073709551437","18446744073709551427","18446744073709551359","18446744073709551337","18446744073709551293"]),
("near2^128",&["340282366920938463463374607431768211297","340282366920938463463374607431768211283","340282366920938463463374607431768211223","340282366920938463463374607431768211219","340282366920938463463374607431768211181","340282366920938463463374607431768211099"]),
("near2^255",&["57896044618658097711785492504343953926634992332820282019728792003956564819949","57896044618658097711785492504343953926634992332820282019728792003956564819937","57896044618658097711785492504343953926634992332820282019728792003956564819493","57896044618658097711785492504343953926634992332820282019728792003956564819233","57896044618658097711785492504343953926634992332820282019728792003956564819203","57896044618658097711785492504343953926634992332820282019728792003956564819047"]),
];

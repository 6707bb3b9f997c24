//! Which tag each named variant stands for, as an independent record.
//!
//! The entries are in the order of the tags. The language tags `TUL ` and `TUM ` are left out: the
//! registry and the ISO codes disagree on which of the two is Tulu and which is Tumbuka.

use opentype::layout::{Feature, Language, Script};

pub const SCRIPT: &[(&[u8; 4], Script)] = &[
    (b"DFLT", Script::Default),
    (b"adlm", Script::Adlam),
    (b"aghb", Script::CaucasianAlbanian),
    (b"ahom", Script::Ahom),
    (b"arab", Script::Arabic),
    (b"armi", Script::ImperialAramaic),
    (b"armn", Script::Armenian),
    (b"avst", Script::Avestan),
    (b"bali", Script::Balinese),
    (b"bamu", Script::Bamum),
    (b"bass", Script::BassaVah),
    (b"batk", Script::Batak),
    (b"beng", Script::Bengali),
    (b"bhks", Script::Bhaiksuki),
    (b"bng2", Script::BengaliV2),
    (b"bopo", Script::Bopomofo),
    (b"brah", Script::Brahmi),
    (b"brai", Script::Braille),
    (b"bugi", Script::Buginese),
    (b"buhd", Script::Buhid),
    (b"byzm", Script::ByzantineMusic),
    (b"cakm", Script::Chakma),
    (b"cans", Script::CanadianSyllabics),
    (b"cari", Script::Carian),
    (b"cham", Script::Cham),
    (b"cher", Script::Cherokee),
    (b"copt", Script::Coptic),
    (b"cprt", Script::CypriotSyllabary),
    (b"cyrl", Script::Cyrillic),
    (b"dev2", Script::DevanagariV2),
    (b"deva", Script::Devanagari),
    (b"dsrt", Script::Deseret),
    (b"dupl", Script::Duployan),
    (b"egyp", Script::EgyptianHieroglyphs),
    (b"elba", Script::Elbasan),
    (b"ethi", Script::Ethiopic),
    (b"geor", Script::Georgian),
    (b"gjr2", Script::GujaratiV2),
    (b"glag", Script::Glagolitic),
    (b"goth", Script::Gothic),
    (b"gran", Script::Grantha),
    (b"grek", Script::Greek),
    (b"gujr", Script::Gujarati),
    (b"gur2", Script::GurmukhiV2),
    (b"guru", Script::Gurmukhi),
    (b"hang", Script::Hangul),
    (b"hani", Script::CJKIdeographic),
    (b"hano", Script::Hanunoo),
    (b"hatr", Script::Hatran),
    (b"hebr", Script::Hebrew),
    (b"hluw", Script::AnatolianHieroglyphs),
    (b"hmng", Script::PahawhHmong),
    (b"hung", Script::OldHungarian),
    (b"ital", Script::OldItalic),
    (b"jamo", Script::HangulJamo),
    (b"java", Script::Javanese),
    (b"kali", Script::KayahLi),
    (b"kana", Script::Hiragana),
    (b"kana", Script::Katakana),
    (b"khar", Script::Kharosthi),
    (b"khmr", Script::Khmer),
    (b"khoj", Script::Khojki),
    (b"knd2", Script::KannadaV2),
    (b"knda", Script::Kannada),
    (b"kthi", Script::Kaithi),
    (b"lana", Script::TaiTham),
    (b"lao ", Script::Lao),
    (b"latn", Script::Latin),
    (b"lepc", Script::Lepcha),
    (b"limb", Script::Limbu),
    (b"lina", Script::LinearA),
    (b"linb", Script::LinearB),
    (b"lisu", Script::Lisu),
    (b"lyci", Script::Lycian),
    (b"lydi", Script::Lydian),
    (b"mahj", Script::Mahajani),
    (b"mand", Script::Mandaic),
    (b"mani", Script::Manichaean),
    (b"marc", Script::Marchen),
    (b"math", Script::MathematicalAlphanumericSymbols),
    (b"mend", Script::MendeKikakui),
    (b"merc", Script::MeroiticCursive),
    (b"mero", Script::MeroiticHieroglyphs),
    (b"mlm2", Script::MalayalamV2),
    (b"mlym", Script::Malayalam),
    (b"modi", Script::Modi),
    (b"mong", Script::Mongolian),
    (b"mroo", Script::Mro),
    (b"mtei", Script::MeiteiMayek),
    (b"mult", Script::Multani),
    (b"musc", Script::MusicalSymbols),
    (b"mym2", Script::MyanmarV2),
    (b"mymr", Script::Myanmar),
    (b"narb", Script::OldNorthArabian),
    (b"nbat", Script::Nabataean),
    (b"newa", Script::Newa),
    (b"nko ", Script::NKo),
    (b"ogam", Script::Ogham),
    (b"olck", Script::OlChiki),
    (b"orkh", Script::OldTurkic),
    (b"ory2", Script::OdiaV2),
    (b"orya", Script::Odia),
    (b"osge", Script::Osage),
    (b"osma", Script::Osmanya),
    (b"palm", Script::Palmyrene),
    (b"pauc", Script::PauCinHau),
    (b"perm", Script::OldPermic),
    (b"phag", Script::Phagspa),
    (b"phli", Script::InscriptionalPahlavi),
    (b"phlp", Script::PsalterPahlavi),
    (b"phnx", Script::Phoenician),
    (b"plrd", Script::Miao),
    (b"prti", Script::InscriptionalParthian),
    (b"rjng", Script::Rejang),
    (b"runr", Script::Runic),
    (b"samr", Script::Samaritan),
    (b"sarb", Script::OldSouthArabian),
    (b"saur", Script::Saurashtra),
    (b"sgnw", Script::SignWriting),
    (b"shaw", Script::Shavian),
    (b"shrd", Script::Sharada),
    (b"sidd", Script::Siddham),
    (b"sind", Script::Khudawadi),
    (b"sinh", Script::Sinhala),
    (b"sora", Script::SoraSompeng),
    (b"sund", Script::Sundanese),
    (b"sylo", Script::SylotiNagri),
    (b"syrc", Script::Syriac),
    (b"tagb", Script::Tagbanwa),
    (b"takr", Script::Takri),
    (b"tale", Script::TaiLe),
    (b"talu", Script::NewTaiLue),
    (b"taml", Script::Tamil),
    (b"tang", Script::Tangut),
    (b"tavt", Script::TaiViet),
    (b"tel2", Script::TeluguV2),
    (b"telu", Script::Telugu),
    (b"tfng", Script::Tifinagh),
    (b"tglg", Script::Tagalog),
    (b"thaa", Script::Thaana),
    (b"thai", Script::Thai),
    (b"tibt", Script::Tibetan),
    (b"tirh", Script::Tirhuta),
    (b"tml2", Script::TamilV2),
    (b"ugar", Script::UgariticCuneiform),
    (b"vai ", Script::Vai),
    (b"wara", Script::WarangCiti),
    (b"xpeo", Script::OldPersianCuneiform),
    (b"xsux", Script::SumeroAkkadianCuneiform),
    (b"yi  ", Script::Yi),
];

pub const LANGUAGE: &[(&[u8; 4], Language)] = &[
    (b"ABA ", Language::Abaza),
    (b"ABK ", Language::Abkhazian),
    (b"ACH ", Language::Acholi),
    (b"ACR ", Language::Achi),
    (b"ADY ", Language::Adyghe),
    (b"AFK ", Language::Afrikaans),
    (b"AFR ", Language::Afar),
    (b"AGW ", Language::Agaw),
    (b"AIO ", Language::Aiton),
    (b"AKA ", Language::Akan),
    (b"ALS ", Language::Alsatian),
    (b"ALT ", Language::Altai),
    (b"AMH ", Language::Amharic),
    (b"ANG ", Language::AngloSaxon),
    (b"APPH", Language::AmericanistPhoneticNotation),
    (b"ARA ", Language::Arabic),
    (b"ARG ", Language::Aragonese),
    (b"ARI ", Language::Aari),
    (b"ARK ", Language::Rakhine),
    (b"ASM ", Language::Assamese),
    (b"AST ", Language::Asturian),
    (b"ATH ", Language::Athapaskan),
    (b"AVR ", Language::Avar),
    (b"AWA ", Language::Awadhi),
    (b"AYM ", Language::Aymara),
    (b"AZB ", Language::Torki),
    (b"AZE ", Language::Azerbaijani),
    (b"BAD ", Language::Badaga),
    (b"BAD0", Language::Banda),
    (b"BAG ", Language::Baghelkhandi),
    (b"BAL ", Language::Balkar),
    (b"BAN ", Language::Balinese),
    (b"BAR ", Language::Bavarian),
    (b"BAU ", Language::Baule),
    (b"BBC ", Language::BatakToba),
    (b"BBR ", Language::Berber),
    (b"BCH ", Language::Bench),
    (b"BCR ", Language::BibleCree),
    (b"BDY ", Language::Bandjalang),
    (b"BEL ", Language::Belarussian),
    (b"BEM ", Language::Bemba),
    (b"BEN ", Language::Bengali),
    (b"BGC ", Language::Haryanvi),
    (b"BGQ ", Language::Bagri),
    (b"BGR ", Language::Bulgarian),
    (b"BHI ", Language::Bhili),
    (b"BHO ", Language::Bhojpuri),
    (b"BIK ", Language::Bikol),
    (b"BIL ", Language::Bilen),
    (b"BIS ", Language::Bislama),
    (b"BJJ ", Language::Kanauji),
    (b"BKF ", Language::Blackfoot),
    (b"BLI ", Language::Baluchi),
    (b"BLK ", Language::PaoKaren),
    (b"BLN ", Language::Balante),
    (b"BLT ", Language::Balti),
    (b"BMB ", Language::Bambara),
    (b"BML ", Language::Bamileke),
    (b"BOS ", Language::Bosnian),
    (b"BPY ", Language::BishnupriyaManipuri),
    (b"BRE ", Language::Breton),
    (b"BRH ", Language::Brahui),
    (b"BRI ", Language::BrajBhasha),
    (b"BRM ", Language::Burmese),
    (b"BRX ", Language::Bodo),
    (b"BSH ", Language::Bashkir),
    (b"BSK ", Language::Burushaski),
    (b"BTI ", Language::Beti),
    (b"BTS ", Language::BatakSimalungun),
    (b"BUG ", Language::Bugis),
    (b"BYV ", Language::Medumba),
    (b"CAK ", Language::Kaqchikel),
    (b"CAT ", Language::Catalan),
    (b"CBK ", Language::ZamboangaChavacano),
    (b"CEB ", Language::Cebuano),
    (b"CGG ", Language::Chiga),
    (b"CHA ", Language::Chamorro),
    (b"CHE ", Language::Chechen),
    (b"CHG ", Language::ChahaGurage),
    (b"CHH ", Language::Chattisgarhi),
    (b"CHI ", Language::Chichewa),
    (b"CHK ", Language::Chukchi),
    (b"CHK0", Language::Chuukese),
    (b"CHO ", Language::Choctaw),
    (b"CHP ", Language::Chipewyan),
    (b"CHR ", Language::Cherokee),
    (b"CHU ", Language::Chuvash),
    (b"CHY ", Language::Cheyenne),
    (b"CMR ", Language::Comorian),
    (b"COP ", Language::Coptic),
    (b"COR ", Language::Cornish),
    (b"COS ", Language::Corsican),
    (b"CPP ", Language::Creoles),
    (b"CRE ", Language::Cree),
    (b"CRR ", Language::Carrier),
    (b"CRT ", Language::CrimeanTatar),
    (b"CSB ", Language::Kashubian),
    (b"CSL ", Language::ChurchSlavonic),
    (b"CSY ", Language::Czech),
    (b"CTG ", Language::Chittagonian),
    (b"CUK ", Language::SanBlasKuna),
    (b"DAN ", Language::Danish),
    (b"DAR ", Language::Dargwa),
    (b"DAX ", Language::Dayi),
    (b"DCR ", Language::WoodsCree),
    (b"DEU ", Language::German),
    #[cfg(feature = "default-language")]
    (b"DFLT", Language::Default),
    (b"DGO ", Language::Dogri),
    (b"DGR ", Language::DogriMacrolanguage),
    (b"DHG ", Language::Dhangu),
    (b"DHV ", Language::DivehiDeprecated),
    (b"DIQ ", Language::Dimli),
    (b"DIV ", Language::Divehi),
    (b"DJR ", Language::Zarma),
    (b"DJR0", Language::Djambarrpuyngu),
    (b"DNG ", Language::Dangme),
    (b"DNJ ", Language::Dan),
    (b"DNK ", Language::Dinka),
    (b"DRI ", Language::Dari),
    (b"DUJ ", Language::Dhuwal),
    (b"DUN ", Language::Dungan),
    (b"DZN ", Language::Dzongkha),
    (b"EBI ", Language::Ebira),
    (b"ECR ", Language::EasternCree),
    (b"EDO ", Language::Edo),
    (b"EFI ", Language::Efik),
    (b"ELL ", Language::Greek),
    (b"EMK ", Language::EasternManinkakan),
    (b"ENG ", Language::English),
    (b"ERZ ", Language::Erzya),
    (b"ESP ", Language::Spanish),
    (b"ESU ", Language::CentralYupik),
    (b"ETI ", Language::Estonian),
    (b"EUQ ", Language::Basque),
    (b"EVK ", Language::Evenki),
    (b"EVN ", Language::Even),
    (b"EWE ", Language::Ewe),
    (b"FAN ", Language::FrenchAntillean),
    (b"FAN0", Language::Fang),
    (b"FAR ", Language::Persian),
    (b"FAT ", Language::Fanti),
    (b"FIN ", Language::Finnish),
    (b"FJI ", Language::Fijian),
    (b"FLE ", Language::DutchFlemish),
    (b"FMP ", Language::Fefe),
    (b"FNE ", Language::ForestNenets),
    (b"FON ", Language::Fon),
    (b"FOS ", Language::Faroese),
    (b"FRA ", Language::French),
    (b"FRC ", Language::CajunFrench),
    (b"FRI ", Language::Frisian),
    (b"FRL ", Language::Friulian),
    (b"FRP ", Language::Arpitan),
    (b"FTA ", Language::Futa),
    (b"FUL ", Language::Fulah),
    (b"FUV ", Language::NigerianFulfulde),
    (b"GAD ", Language::Ga),
    (b"GAE ", Language::ScottishGaelic),
    (b"GAG ", Language::Gagauz),
    (b"GAL ", Language::Galician),
    (b"GAR ", Language::Garshuni),
    (b"GAW ", Language::Garhwali),
    (b"GEZ ", Language::Geez),
    (b"GIH ", Language::Githabul),
    (b"GIL ", Language::Gilyak),
    (b"GIL0", Language::Kiribati),
    (b"GKP ", Language::KpelleGuinea),
    (b"GLK ", Language::Gilaki),
    (b"GMZ ", Language::Gumuz),
    (b"GNN ", Language::Gumatj),
    (b"GOG ", Language::Gogo),
    (b"GON ", Language::Gondi),
    (b"GRN ", Language::Greenlandic),
    (b"GRO ", Language::Garo),
    (b"GUA ", Language::Guarani),
    (b"GUC ", Language::Wayuu),
    (b"GUF ", Language::Gupapuyngu),
    (b"GUJ ", Language::Gujarati),
    (b"GUZ ", Language::Gusii),
    (b"HAI ", Language::Haitian),
    (b"HAL ", Language::Halam),
    (b"HAR ", Language::Harauti),
    (b"HAU ", Language::Hausa),
    (b"HAW ", Language::Hawaiian),
    (b"HAY ", Language::Haya),
    (b"HAZ ", Language::Hazaragi),
    (b"HBN ", Language::HammerBanna),
    (b"HER ", Language::Herero),
    (b"HIL ", Language::Hiligaynon),
    (b"HIN ", Language::Hindi),
    (b"HMA ", Language::HighMari),
    (b"HMN ", Language::Hmong),
    (b"HMO ", Language::HiriMotu),
    (b"HND ", Language::Hindko),
    (b"HO  ", Language::Ho),
    (b"HRI ", Language::Harari),
    (b"HRV ", Language::Croatian),
    (b"HUN ", Language::Hungarian),
    (b"HYE ", Language::Armenian),
    (b"HYE0", Language::ArmenianEast),
    (b"IBA ", Language::Iban),
    (b"IBB ", Language::Ibibio),
    (b"IBO ", Language::Igbo),
    (b"IDO ", Language::Ido),
    (b"IJO ", Language::Ijolanguages),
    (b"ILE ", Language::Interlingue),
    (b"ILO ", Language::Ilokano),
    (b"INA ", Language::Interlingua),
    (b"IND ", Language::Indonesian),
    (b"ING ", Language::Ingush),
    (b"INU ", Language::Inuktitut),
    (b"IPK ", Language::Inupiat),
    (b"IPPH", Language::InternationalPhoneticAlphabet),
    (b"IRI ", Language::Irish),
    (b"IRT ", Language::IrishTraditional),
    (b"ISL ", Language::Icelandic),
    (b"ISM ", Language::InariSami),
    (b"ITA ", Language::Italian),
    (b"IWR ", Language::Hebrew),
    (b"JAM ", Language::JamaicanCreole),
    (b"JAN ", Language::Japanese),
    (b"JAV ", Language::Javanese),
    (b"JBO ", Language::Lojban),
    (b"JCT ", Language::Krymchak),
    (b"JII ", Language::Yiddish),
    (b"JUD ", Language::Ladino),
    (b"JUL ", Language::Jula),
    (b"KAB ", Language::Kabardian),
    (b"KAB0", Language::Kabyle),
    (b"KAC ", Language::Kachchi),
    (b"KAL ", Language::Kalenjin),
    (b"KAN ", Language::Kannada),
    (b"KAR ", Language::Karachay),
    (b"KAT ", Language::Georgian),
    (b"KAZ ", Language::Kazakh),
    (b"KDE ", Language::Makonde),
    (b"KEA ", Language::Kabuverdianu),
    (b"KEB ", Language::Kebena),
    (b"KEK ", Language::Kekchi),
    (b"KGE ", Language::KhutsuriGeorgian),
    (b"KHA ", Language::Khakass),
    (b"KHK ", Language::KhantyKazim),
    (b"KHM ", Language::Khmer),
    (b"KHS ", Language::KhantyShurishkar),
    (b"KHT ", Language::KhamtiShan),
    (b"KHV ", Language::KhantyVakhi),
    (b"KHW ", Language::Khowar),
    (b"KIK ", Language::Kikuyu),
    (b"KIR ", Language::Kirghiz),
    (b"KIS ", Language::Kisii),
    (b"KIU ", Language::Kirmanjki),
    (b"KJD ", Language::SouthernKiwai),
    (b"KJP ", Language::EasternPwoKaren),
    (b"KKN ", Language::Kokni),
    (b"KLM ", Language::Kalmyk),
    (b"KMB ", Language::Kamba),
    (b"KMN ", Language::Kumaoni),
    (b"KMO ", Language::Komo),
    (b"KMS ", Language::Komso),
    (b"KMZ ", Language::KhorasaniTurkic),
    (b"KNR ", Language::Kanuri),
    (b"KOD ", Language::Kodagu),
    (b"KOH ", Language::KoreanOldHangul),
    (b"KOK ", Language::Konkani),
    (b"KOM ", Language::Komi),
    (b"KON ", Language::Kikongo),
    (b"KON0", Language::Kongo),
    (b"KOP ", Language::KomiPermyak),
    (b"KOR ", Language::Korean),
    (b"KOS ", Language::Kosraean),
    (b"KOZ ", Language::KomiZyrian),
    (b"KPL ", Language::Kpelle),
    (b"KRI ", Language::Krio),
    (b"KRK ", Language::Karakalpak),
    (b"KRL ", Language::Karelian),
    (b"KRM ", Language::Karaim),
    (b"KRN ", Language::Karen),
    (b"KRT ", Language::Koorete),
    (b"KSH ", Language::Kashmiri),
    (b"KSH0", Language::Ripuarian),
    (b"KSI ", Language::Khasi),
    (b"KSM ", Language::KildinSami),
    (b"KSW ", Language::SgawKaren),
    (b"KUA ", Language::Kuanyama),
    (b"KUI ", Language::Kui),
    (b"KUL ", Language::Kulvi),
    (b"KUM ", Language::Kumyk),
    (b"KUR ", Language::Kurdish),
    (b"KUU ", Language::Kurukh),
    (b"KUY ", Language::Kuy),
    (b"KYK ", Language::Koryak),
    (b"KYU ", Language::WesternKayah),
    (b"LAD ", Language::Ladin),
    (b"LAH ", Language::Lahuli),
    (b"LAK ", Language::Lak),
    (b"LAM ", Language::Lambani),
    (b"LAO ", Language::Lao),
    (b"LAT ", Language::Latin),
    (b"LAZ ", Language::Laz),
    (b"LCR ", Language::LCree),
    (b"LDK ", Language::Ladakhi),
    (b"LEZ ", Language::Lezgi),
    (b"LIJ ", Language::Ligurian),
    (b"LIM ", Language::Limburgish),
    (b"LIN ", Language::Lingala),
    (b"LIS ", Language::Lisu),
    (b"LJP ", Language::Lampung),
    (b"LKI ", Language::Laki),
    (b"LMA ", Language::LowMari),
    (b"LMB ", Language::Limbu),
    (b"LMO ", Language::Lombard),
    (b"LMW ", Language::Lomwe),
    (b"LOM ", Language::Loma),
    (b"LRC ", Language::Luri),
    (b"LSB ", Language::LowerSorbian),
    (b"LSM ", Language::LuleSami),
    (b"LTH ", Language::Lithuanian),
    (b"LTZ ", Language::Luxembourgish),
    (b"LUA ", Language::LubaLulua),
    (b"LUB ", Language::LubaKatanga),
    (b"LUG ", Language::Ganda),
    (b"LUH ", Language::Luyia),
    (b"LUO ", Language::Luo),
    (b"LVI ", Language::Latvian),
    (b"MAD ", Language::Madura),
    (b"MAG ", Language::Magahi),
    (b"MAH ", Language::Marshallese),
    (b"MAJ ", Language::Majang),
    (b"MAK ", Language::Makhuwa),
    (b"MAL ", Language::Malayalam),
    (b"MAM ", Language::Mam),
    (b"MAN ", Language::Mansi),
    (b"MAP ", Language::Mapudungun),
    (b"MAR ", Language::Marathi),
    (b"MAW ", Language::Marwari),
    (b"MBN ", Language::Mbundu),
    (b"MBO ", Language::Mbo),
    (b"MCH ", Language::Manchu),
    (b"MCR ", Language::MooseCree),
    (b"MDE ", Language::Mende),
    (b"MDR ", Language::Mandar),
    (b"MEN ", Language::Meen),
    (b"MER ", Language::Meru),
    (b"MFE ", Language::Morisyen),
    (b"MIN ", Language::Minangkabau),
    (b"MIZ ", Language::Mizo),
    (b"MKD ", Language::Macedonian),
    (b"MKR ", Language::Makasar),
    (b"MKW ", Language::Kituba),
    (b"MLE ", Language::Male),
    (b"MLG ", Language::Malagasy),
    (b"MLN ", Language::Malinke),
    (b"MLR ", Language::MalayalamReformed),
    (b"MLY ", Language::Malay),
    (b"MND ", Language::Mandinka),
    (b"MNG ", Language::Mongolian),
    (b"MNI ", Language::Manipuri),
    (b"MNK ", Language::Maninka),
    (b"MNX ", Language::Manx),
    (b"MOH ", Language::Mohawk),
    (b"MOK ", Language::Moksha),
    (b"MOL ", Language::Moldavian),
    (b"MON ", Language::Mon),
    (b"MOR ", Language::Moroccan),
    (b"MOS ", Language::Mossi),
    (b"MRI ", Language::Maori),
    (b"MTH ", Language::Maithili),
    (b"MTS ", Language::Maltese),
    (b"MUN ", Language::Mundari),
    (b"MUS ", Language::Muscogee),
    (b"MWL ", Language::Mirandese),
    (b"MWW ", Language::HmongDaw),
    (b"MYN ", Language::Mayan),
    (b"MZN ", Language::Mazanderani),
    (b"NAG ", Language::NagaAssamese),
    (b"NAH ", Language::Nahuatl),
    (b"NAN ", Language::Nanai),
    (b"NAP ", Language::Neapolitan),
    (b"NAS ", Language::Naskapi),
    (b"NAU ", Language::Nauruan),
    (b"NAV ", Language::Navajo),
    (b"NCR ", Language::NCree),
    (b"NDB ", Language::Ndebele),
    (b"NDC ", Language::Ndau),
    (b"NDG ", Language::Ndonga),
    (b"NDS ", Language::LowSaxon),
    (b"NEP ", Language::Nepali),
    (b"NEW ", Language::Newari),
    (b"NGA ", Language::Ngbaka),
    (b"NGR ", Language::Nagari),
    (b"NHC ", Language::NorwayHouseCree),
    (b"NIS ", Language::Nisi),
    (b"NIU ", Language::Niuean),
    (b"NKL ", Language::Nyankole),
    (b"NKO ", Language::NKo),
    (b"NLD ", Language::Dutch),
    (b"NOE ", Language::Nimadi),
    (b"NOG ", Language::Nogai),
    (b"NOR ", Language::Norwegian),
    (b"NOV ", Language::Novial),
    (b"NSM ", Language::NorthernSami),
    (b"NSO ", Language::NorthernSotho),
    (b"NTA ", Language::NorthernTai),
    (b"NTO ", Language::Esperanto),
    (b"NYM ", Language::Nyamwezi),
    (b"NYN ", Language::NorwegianNynorsk),
    (b"NZA ", Language::MbembeTigon),
    (b"OCI ", Language::Occitan),
    (b"OCR ", Language::OjiCree),
    (b"OJB ", Language::Ojibway),
    (b"ORI ", Language::Odia),
    (b"ORO ", Language::Oromo),
    (b"OSS ", Language::Ossetian),
    (b"PAA ", Language::PalestinianAramaic),
    (b"PAG ", Language::Pangasinan),
    (b"PAL ", Language::Pali),
    (b"PAM ", Language::Pampangan),
    (b"PAN ", Language::Punjabi),
    (b"PAP ", Language::Palpa),
    (b"PAP0", Language::Papiamentu),
    (b"PAS ", Language::Pashto),
    (b"PAU ", Language::Palauan),
    (b"PCC ", Language::Bouyei),
    (b"PCD ", Language::Picard),
    (b"PDC ", Language::PennsylvaniaGerman),
    (b"PGR ", Language::PolytonicGreek),
    (b"PHK ", Language::Phake),
    (b"PIH ", Language::Norfolk),
    (b"PIL ", Language::Filipino),
    (b"PLG ", Language::Palaung),
    (b"PLK ", Language::Polish),
    (b"PMS ", Language::Piemontese),
    (b"PNB ", Language::WesternPanjabi),
    (b"POH ", Language::Pocomchi),
    (b"PON ", Language::Pohnpeian),
    (b"PRO ", Language::Provencal),
    (b"PTG ", Language::Portuguese),
    (b"PWO ", Language::WesternPwoKaren),
    (b"QIN ", Language::Chin),
    (b"QUC ", Language::Kiche),
    (b"QUH ", Language::QuechuaBolivia),
    (b"QUZ ", Language::Quechua),
    (b"QVI ", Language::QuechuaEcuador),
    (b"QWH ", Language::QuechuaPeru),
    (b"RAJ ", Language::Rajasthani),
    (b"RAR ", Language::Rarotongan),
    (b"RBU ", Language::RussianBuriat),
    (b"RCR ", Language::RCree),
    (b"REJ ", Language::Rejang),
    (b"RIA ", Language::Riang),
    (b"RIF ", Language::Tarifit),
    (b"RIT ", Language::Ritarungo),
    (b"RKW ", Language::Arakwal),
    (b"RMS ", Language::Romansh),
    (b"RMY ", Language::VlaxRomani),
    (b"ROM ", Language::Romanian),
    (b"ROY ", Language::Romany),
    (b"RSY ", Language::Rusyn),
    (b"RTM ", Language::Rotuman),
    (b"RUA ", Language::Kinyarwanda),
    (b"RUN ", Language::Rundi),
    (b"RUP ", Language::Aromanian),
    (b"RUS ", Language::Russian),
    (b"SAD ", Language::Sadri),
    (b"SAN ", Language::Sanskrit),
    (b"SAS ", Language::Sasak),
    (b"SAT ", Language::Santali),
    (b"SAY ", Language::Sayisi),
    (b"SCN ", Language::Sicilian),
    (b"SCO ", Language::Scots),
    (b"SCS ", Language::NorthSlavey),
    (b"SEK ", Language::Sekota),
    (b"SEL ", Language::Selkup),
    (b"SGA ", Language::OldIrish),
    (b"SGO ", Language::Sango),
    (b"SGS ", Language::Samogitian),
    (b"SHI ", Language::Tachelhit),
    (b"SHN ", Language::Shan),
    (b"SIB ", Language::Sibe),
    (b"SID ", Language::Sidamo),
    (b"SIG ", Language::SilteGurage),
    (b"SKS ", Language::SkoltSami),
    (b"SKY ", Language::Slovak),
    (b"SLA ", Language::Slavey),
    (b"SLV ", Language::Slovenian),
    (b"SML ", Language::Somali),
    (b"SMO ", Language::Samoan),
    (b"SNA ", Language::Sena),
    (b"SNA0", Language::Shona),
    (b"SND ", Language::Sindhi),
    (b"SNH ", Language::Sinhala),
    (b"SNK ", Language::Soninke),
    (b"SOG ", Language::SodoGurage),
    (b"SOP ", Language::Songe),
    (b"SOT ", Language::SouthernSotho),
    (b"SQI ", Language::Albanian),
    (b"SRB ", Language::Serbian),
    (b"SRD ", Language::Sardinian),
    (b"SRK ", Language::Saraiki),
    (b"SRR ", Language::Serer),
    (b"SSL ", Language::SouthSlavey),
    (b"SSM ", Language::SouthernSami),
    (b"STQ ", Language::SaterlandFrisian),
    (b"SUK ", Language::Sukuma),
    (b"SUN ", Language::Sundanese),
    (b"SUR ", Language::Suri),
    (b"SVA ", Language::Svan),
    (b"SVE ", Language::Swedish),
    (b"SWA ", Language::SwadayaAramaic),
    (b"SWK ", Language::Swahili),
    (b"SWZ ", Language::Swati),
    (b"SXT ", Language::Sutu),
    (b"SXU ", Language::UpperSaxon),
    (b"SYL ", Language::Sylheti),
    (b"SYR ", Language::Syriac),
    (b"SZL ", Language::Silesian),
    (b"TAB ", Language::Tabasaran),
    (b"TAJ ", Language::Tajiki),
    (b"TAM ", Language::Tamil),
    (b"TAT ", Language::Tatar),
    (b"TCR ", Language::THCree),
    (b"TDD ", Language::DehongDai),
    (b"TEL ", Language::Telugu),
    (b"TET ", Language::Tetum),
    (b"TGL ", Language::Tagalog),
    (b"TGN ", Language::Tongan),
    (b"TGR ", Language::Tigre),
    (b"TGY ", Language::Tigrinya),
    (b"THA ", Language::Thai),
    (b"THT ", Language::Tahitian),
    (b"TIB ", Language::Tibetan),
    (b"TIV ", Language::Tiv),
    (b"TKM ", Language::Turkmen),
    (b"TMH ", Language::Tamashek),
    (b"TMN ", Language::Temne),
    (b"TNA ", Language::Tswana),
    (b"TNE ", Language::TundraNenets),
    (b"TNG ", Language::Tonga),
    (b"TOD ", Language::Todo),
    (b"TOD0", Language::Toma),
    (b"TPI ", Language::TokPisin),
    (b"TRK ", Language::Turkish),
    (b"TSG ", Language::Tsonga),
    (b"TUA ", Language::TuroyoAramaic),
    (b"TUV ", Language::Tuvin),
    (b"TVL ", Language::Tuvalu),
    (b"TWI ", Language::Twi),
    (b"TYZ ", Language::Tay),
    (b"TZM ", Language::Tamazight),
    (b"TZO ", Language::Tzotzil),
    (b"UDM ", Language::Udmurt),
    (b"UKR ", Language::Ukrainian),
    (b"UMB ", Language::Umbundu),
    (b"URD ", Language::Urdu),
    (b"USB ", Language::UpperSorbian),
    (b"UYG ", Language::Uyghur),
    (b"UZB ", Language::Uzbek),
    (b"VEC ", Language::Venetian),
    (b"VEN ", Language::Venda),
    (b"VIT ", Language::Vietnamese),
    (b"VOL ", Language::Volapuk),
    (b"VRO ", Language::Voro),
    (b"WA  ", Language::Wa),
    (b"WAG ", Language::Wagdi),
    (b"WAR ", Language::WarayWaray),
    (b"WCR ", Language::WestCree),
    (b"WEL ", Language::Welsh),
    (b"WLF ", Language::Wolof),
    (b"WLN ", Language::Walloon),
    (b"WTM ", Language::Mewati),
    (b"XBD ", Language::Lu),
    (b"XHS ", Language::Xhosa),
    (b"XJB ", Language::Minjangbal),
    (b"XOG ", Language::Soga),
    (b"XPE ", Language::KpelleLiberia),
    (b"YAK ", Language::Sakha),
    (b"YAO ", Language::Yao),
    (b"YAP ", Language::Yapese),
    (b"YBA ", Language::Yoruba),
    (b"YCR ", Language::YCree),
    (b"YIC ", Language::YiClassic),
    (b"YIM ", Language::YiModern),
    (b"ZEA ", Language::Zealandic),
    (b"ZGH ", Language::StandardMorrocanTamazigh),
    (b"ZHA ", Language::Zhuang),
    (b"ZHH ", Language::Chinese),
    (b"ZHP ", Language::ChinesePhonetic),
    (b"ZHS ", Language::ChineseSimplified),
    (b"ZHT ", Language::ChineseTraditional),
    (b"ZND ", Language::Zande),
    (b"ZUL ", Language::Zulu),
    (b"ZZA ", Language::Zazaki),
];

pub const FEATURE: &[(&[u8; 4], Feature)] = &[
    (b"aalt", Feature::AccessAllAlternates),
    (b"abvf", Feature::AboveBaseForms),
    (b"abvm", Feature::AboveBaseMarkPositioning),
    (b"abvs", Feature::AboveBaseSubstitutions),
    (b"afrc", Feature::AlternativeFractions),
    (b"akhn", Feature::Akhand),
    (b"blwf", Feature::BelowBaseForms),
    (b"blwm", Feature::BelowBaseMarkPositioning),
    (b"blws", Feature::BelowBaseSubstitutions),
    (b"c2pc", Feature::PetiteCapitalsFromCapitals),
    (b"c2sc", Feature::SmallCapitalsFromCapitals),
    (b"calt", Feature::ContextualAlternates),
    (b"case", Feature::CaseSensitiveForms),
    (b"ccmp", Feature::GlyphCompositionDecomposition),
    (b"cfar", Feature::ConjunctFormAfterRo),
    (b"chws", Feature::ContextualHalfWidthSpacing),
    (b"cjct", Feature::ConjunctForms),
    (b"clig", Feature::ContextualLigatures),
    (b"cpct", Feature::CenteredCJKPunctuation),
    (b"cpsp", Feature::CapitalSpacing),
    (b"cswh", Feature::ContextualSwash),
    (b"curs", Feature::CursivePositioning),
    (b"cv01", Feature::CharacterVariants1),
    (b"cv02", Feature::CharacterVariants2),
    (b"cv03", Feature::CharacterVariants3),
    (b"cv04", Feature::CharacterVariants4),
    (b"cv05", Feature::CharacterVariants5),
    (b"cv06", Feature::CharacterVariants6),
    (b"cv07", Feature::CharacterVariants7),
    (b"cv08", Feature::CharacterVariants8),
    (b"cv09", Feature::CharacterVariants9),
    (b"cv10", Feature::CharacterVariants10),
    (b"cv11", Feature::CharacterVariants11),
    (b"cv12", Feature::CharacterVariants12),
    (b"cv13", Feature::CharacterVariants13),
    (b"cv14", Feature::CharacterVariants14),
    (b"cv15", Feature::CharacterVariants15),
    (b"cv16", Feature::CharacterVariants16),
    (b"cv17", Feature::CharacterVariants17),
    (b"cv18", Feature::CharacterVariants18),
    (b"cv19", Feature::CharacterVariants19),
    (b"cv20", Feature::CharacterVariants20),
    (b"cv21", Feature::CharacterVariants21),
    (b"cv22", Feature::CharacterVariants22),
    (b"cv23", Feature::CharacterVariants23),
    (b"cv24", Feature::CharacterVariants24),
    (b"cv25", Feature::CharacterVariants25),
    (b"cv26", Feature::CharacterVariants26),
    (b"cv27", Feature::CharacterVariants27),
    (b"cv28", Feature::CharacterVariants28),
    (b"cv29", Feature::CharacterVariants29),
    (b"cv30", Feature::CharacterVariants30),
    (b"cv31", Feature::CharacterVariants31),
    (b"cv32", Feature::CharacterVariants32),
    (b"cv33", Feature::CharacterVariants33),
    (b"cv34", Feature::CharacterVariants34),
    (b"cv35", Feature::CharacterVariants35),
    (b"cv36", Feature::CharacterVariants36),
    (b"cv37", Feature::CharacterVariants37),
    (b"cv38", Feature::CharacterVariants38),
    (b"cv39", Feature::CharacterVariants39),
    (b"cv40", Feature::CharacterVariants40),
    (b"cv41", Feature::CharacterVariants41),
    (b"cv42", Feature::CharacterVariants42),
    (b"cv43", Feature::CharacterVariants43),
    (b"cv44", Feature::CharacterVariants44),
    (b"cv45", Feature::CharacterVariants45),
    (b"cv46", Feature::CharacterVariants46),
    (b"cv47", Feature::CharacterVariants47),
    (b"cv48", Feature::CharacterVariants48),
    (b"cv49", Feature::CharacterVariants49),
    (b"cv50", Feature::CharacterVariants50),
    (b"cv51", Feature::CharacterVariants51),
    (b"cv52", Feature::CharacterVariants52),
    (b"cv53", Feature::CharacterVariants53),
    (b"cv54", Feature::CharacterVariants54),
    (b"cv55", Feature::CharacterVariants55),
    (b"cv56", Feature::CharacterVariants56),
    (b"cv57", Feature::CharacterVariants57),
    (b"cv58", Feature::CharacterVariants58),
    (b"cv59", Feature::CharacterVariants59),
    (b"cv60", Feature::CharacterVariants60),
    (b"cv61", Feature::CharacterVariants61),
    (b"cv62", Feature::CharacterVariants62),
    (b"cv63", Feature::CharacterVariants63),
    (b"cv64", Feature::CharacterVariants64),
    (b"cv65", Feature::CharacterVariants65),
    (b"cv66", Feature::CharacterVariants66),
    (b"cv67", Feature::CharacterVariants67),
    (b"cv68", Feature::CharacterVariants68),
    (b"cv69", Feature::CharacterVariants69),
    (b"cv70", Feature::CharacterVariants70),
    (b"cv71", Feature::CharacterVariants71),
    (b"cv72", Feature::CharacterVariants72),
    (b"cv73", Feature::CharacterVariants73),
    (b"cv74", Feature::CharacterVariants74),
    (b"cv75", Feature::CharacterVariants75),
    (b"cv76", Feature::CharacterVariants76),
    (b"cv77", Feature::CharacterVariants77),
    (b"cv78", Feature::CharacterVariants78),
    (b"cv79", Feature::CharacterVariants79),
    (b"cv80", Feature::CharacterVariants80),
    (b"cv81", Feature::CharacterVariants81),
    (b"cv82", Feature::CharacterVariants82),
    (b"cv83", Feature::CharacterVariants83),
    (b"cv84", Feature::CharacterVariants84),
    (b"cv85", Feature::CharacterVariants85),
    (b"cv86", Feature::CharacterVariants86),
    (b"cv87", Feature::CharacterVariants87),
    (b"cv88", Feature::CharacterVariants88),
    (b"cv89", Feature::CharacterVariants89),
    (b"cv90", Feature::CharacterVariants90),
    (b"cv91", Feature::CharacterVariants91),
    (b"cv92", Feature::CharacterVariants92),
    (b"cv93", Feature::CharacterVariants93),
    (b"cv94", Feature::CharacterVariants94),
    (b"cv95", Feature::CharacterVariants95),
    (b"cv96", Feature::CharacterVariants96),
    (b"cv97", Feature::CharacterVariants97),
    (b"cv98", Feature::CharacterVariants98),
    (b"cv99", Feature::CharacterVariants99),
    (b"dist", Feature::Distances),
    (b"dlig", Feature::DiscretionaryLigatures),
    (b"dnom", Feature::Denominators),
    (b"dtls", Feature::DotlessForms),
    (b"expt", Feature::ExpertForms),
    (b"falt", Feature::FinalGlyphonLineAlternates),
    (b"fin2", Feature::TerminalForms2),
    (b"fin3", Feature::TerminalForms3),
    (b"fina", Feature::TerminalForms1),
    (b"flac", Feature::FlattenedAccentForms),
    (b"frac", Feature::Fractions),
    (b"fwid", Feature::FullWidths),
    (b"half", Feature::HalfForms),
    (b"haln", Feature::HalantForms),
    (b"halt", Feature::AlternateHalfWidths),
    (b"hist", Feature::HistoricalForms),
    (b"hkna", Feature::HorizontalKanaAlternates),
    (b"hlig", Feature::HistoricalLigatures),
    (b"hngl", Feature::Hangul),
    (b"hojo", Feature::HojoKanjiForms),
    (b"hwid", Feature::HalfWidths),
    (b"init", Feature::InitialForms),
    (b"isol", Feature::IsolatedForms),
    (b"ital", Feature::Italics),
    (b"jalt", Feature::JustificationAlternates),
    (b"jp04", Feature::JIS2004Forms),
    (b"jp78", Feature::JIS78Forms),
    (b"jp83", Feature::JIS83Forms),
    (b"jp90", Feature::JIS90Forms),
    (b"kern", Feature::Kerning),
    (b"lfbd", Feature::LeftBounds),
    (b"liga", Feature::StandardLigatures),
    (b"ljmo", Feature::LeadingJamoForms),
    (b"lnum", Feature::LiningFigures),
    (b"locl", Feature::LocalizedForms),
    (b"ltra", Feature::LeftToRightAlternates),
    (b"ltrm", Feature::LeftToRightMirroredForms),
    (b"mark", Feature::MarkPositioning),
    (b"med2", Feature::MedialForms2),
    (b"medi", Feature::MedialForms1),
    (b"mgrk", Feature::MathematicalGreek),
    (b"mkmk", Feature::MarkToMarkPositioning),
    (b"mset", Feature::MarkPositioningViaSubstitution),
    (b"nalt", Feature::AlternateAnnotationForms),
    (b"nlck", Feature::NLCKanjiForms),
    (b"nukt", Feature::NuktaForms),
    (b"numr", Feature::Numerators),
    (b"onum", Feature::OldstyleFigures),
    (b"opbd", Feature::OpticalBounds),
    (b"ordn", Feature::Ordinals),
    (b"ornm", Feature::Ornaments),
    (b"palt", Feature::ProportionalAlternateWidths),
    (b"pcap", Feature::PetiteCapitals),
    (b"pkna", Feature::ProportionalKana),
    (b"pnum", Feature::ProportionalFigures),
    (b"pref", Feature::PreBaseForms),
    (b"pres", Feature::PreBaseSubstitutions),
    (b"pstf", Feature::PostBaseForms),
    (b"psts", Feature::PostBaseSubstitutions),
    (b"pwid", Feature::ProportionalWidths),
    (b"qwid", Feature::QuarterWidths),
    (b"rand", Feature::Randomize),
    (b"rclt", Feature::RequiredContextualAlternates),
    (b"rkrf", Feature::RakarForms),
    (b"rlig", Feature::RequiredLigatures),
    (b"rphf", Feature::RephForms),
    (b"rtbd", Feature::RightBounds),
    (b"rtla", Feature::RightToLeftAlternates),
    (b"rtlm", Feature::RightToLeftMirroredForms),
    (b"ruby", Feature::RubyNotationForms),
    (b"rvrn", Feature::RequiredVariationAlternates),
    (b"salt", Feature::StylisticAlternates),
    (b"sinf", Feature::ScientificInferiors),
    (b"size", Feature::OpticalSize),
    (b"smcp", Feature::SmallCapitals),
    (b"smpl", Feature::SimplifiedForms),
    (b"ss01", Feature::StylisticSet1),
    (b"ss02", Feature::StylisticSet2),
    (b"ss03", Feature::StylisticSet3),
    (b"ss04", Feature::StylisticSet4),
    (b"ss05", Feature::StylisticSet5),
    (b"ss06", Feature::StylisticSet6),
    (b"ss07", Feature::StylisticSet7),
    (b"ss08", Feature::StylisticSet8),
    (b"ss09", Feature::StylisticSet9),
    (b"ss10", Feature::StylisticSet10),
    (b"ss11", Feature::StylisticSet11),
    (b"ss12", Feature::StylisticSet12),
    (b"ss13", Feature::StylisticSet13),
    (b"ss14", Feature::StylisticSet14),
    (b"ss15", Feature::StylisticSet15),
    (b"ss16", Feature::StylisticSet16),
    (b"ss17", Feature::StylisticSet17),
    (b"ss18", Feature::StylisticSet18),
    (b"ss19", Feature::StylisticSet19),
    (b"ss20", Feature::StylisticSet20),
    (b"ssty", Feature::MathScriptStyleAlternates),
    (b"stch", Feature::StretchingGlyphDecomposition),
    (b"subs", Feature::Subscript),
    (b"sups", Feature::Superscript),
    (b"swsh", Feature::Swash),
    (b"titl", Feature::Titling),
    (b"tjmo", Feature::TrailingJamoForms),
    (b"tnam", Feature::TraditionalNameForms),
    (b"tnum", Feature::TabularFigures),
    (b"trad", Feature::TraditionalForms),
    (b"twid", Feature::ThirdWidths),
    (b"unic", Feature::Unicase),
    (b"valt", Feature::AlternateVerticalMetrics),
    (b"vatu", Feature::VattuVariants),
    (b"vchw", Feature::VerticalContextualHalfWidthSpacing),
    (b"vert", Feature::VerticalWriting),
    (b"vhal", Feature::AlternateVerticalHalfMetrics),
    (b"vjmo", Feature::VowelJamoForms),
    (b"vkna", Feature::VerticalKanaAlternates),
    (b"vkrn", Feature::VerticalKerning),
    (b"vpal", Feature::ProportionalAlternateVerticalMetrics),
    (b"vrt2", Feature::VerticalAlternatesAndRotation),
    (b"vrtr", Feature::VerticalAlternatesForRotation),
    (b"zero", Feature::SlashedZero),
];

/// Give the named variants of a tag.
pub fn of<T: Copy>(table: &'static [(&[u8; 4], T)], tag: &[u8; 4]) -> impl Iterator<Item = T> {
    let tag = *tag;
    let start = table.partition_point(|(known, _)| **known < tag);
    table[start..].iter().take_while(move |(known, _)| **known == tag).map(|(_, variant)| *variant)
}

//! Every tag the library knows by name, so that lookups by a named variant are exercised for each.

pub const SCRIPT: &[u8] = b"\
    DFLTadlmaghbahomarabarmiarmnavstbalibamubassbatkbengbhksbng2bopobrahbraibugibuhd\
    byzmcakmcanscarichamchercoptcprtcyrldev2devadsrtduplegypelbaethigeorgjr2glaggoth\
    grangrekgujrgur2guruhanghanihanohatrhebrhluwhmnghungitaljamojavakalikanakharkhmr\
    khojknd2kndakthilanalao latnlepclimblinalinblisulycilydimahjmandmanimarcmathmend\
    mercmeromlm2mlymmodimongmroomteimultmuscmym2mymrnarbnbatnewanko ogamolckorkhory2\
    oryaosgeosmapalmpaucpermphagphliphlpphnxplrdprtirjngrunrsamrsarbsaursgnwshawshrd\
    siddsindsinhsorasundsylosyrctagbtakrtaletalutamltangtavttel2telutfngtglgthaathai\
    tibttirhtml2ugarvai waraxpeoxsuxyi  ";
pub const FEATURE: &[u8] = b"\
    aaltabvfabvmabvsafrcakhnblwfblwmblwsc2pcc2sccaltcaseccmpcfarchwscjctcligcpctcpsp\
    cswhcurscv01cv02cv03cv04cv05cv06cv07cv08cv09cv10cv11cv12cv13cv14cv15cv16cv17cv18\
    cv19cv20cv21cv22cv23cv24cv25cv26cv27cv28cv29cv30cv31cv32cv33cv34cv35cv36cv37cv38\
    cv39cv40cv41cv42cv43cv44cv45cv46cv47cv48cv49cv50cv51cv52cv53cv54cv55cv56cv57cv58\
    cv59cv60cv61cv62cv63cv64cv65cv66cv67cv68cv69cv70cv71cv72cv73cv74cv75cv76cv77cv78\
    cv79cv80cv81cv82cv83cv84cv85cv86cv87cv88cv89cv90cv91cv92cv93cv94cv95cv96cv97cv98\
    cv99distdligdnomdtlsexptfaltfin2fin3finaflacfracfwidhalfhalnhalthisthknahlighngl\
    hojohwidinitisolitaljaltjp04jp78jp83jp90kernlfbdligaljmolnumloclltraltrmmarkmed2\
    medimgrkmkmkmsetnaltnlcknuktnumronumopbdordnornmpaltpcappknapnumprefprespstfpsts\
    pwidqwidrandrcltrkrfrligrphfrtbdrtlartlmrubyrvrnsaltsinfsizesmcpsmplss01ss02ss03\
    ss04ss05ss06ss07ss08ss09ss10ss11ss12ss13ss14ss15ss16ss17ss18ss19ss20sstystchsubs\
    supsswshtitltjmotnamtnumtradtwidunicvaltvatuvchwvertvhalvjmovknavkrnvpalvrt2vrtr\
    zero";
pub const LANGUAGE: &[u8] = b"\
    ABA ABK ACH ACR ADY AFK AFR AGW AIO AKA ALS ALT AMH ANG APPHARA ARG ARI ARK ASM \
    AST ATH AVR AWA AYM AZB AZE BAD BAD0BAG BAL BAN BAR BAU BBC BBR BCH BCR BDY BEL \
    BEM BEN BGC BGQ BGR BHI BHO BIK BIL BIS BJJ BKF BLI BLK BLN BLT BMB BML BOS BPY \
    BRE BRH BRI BRM BRX BSH BSK BTI BTS BUG BYV CAK CAT CBK CEB CGG CHA CHE CHG CHH \
    CHI CHK CHK0CHO CHP CHR CHU CHY CMR COP COR COS CPP CRE CRR CRT CSB CSL CSY CTG \
    CUK DAN DAR DAX DCR DEU DFLTDGO DGR DHG DHV DIQ DIV DJR DJR0DNG DNJ DNK DRI DUJ \
    DUN DZN EBI ECR EDO EFI ELL EMK ENG ERZ ESP ESU ETI EUQ EVK EVN EWE FAN FAN0FAR \
    FAT FIN FJI FLE FMP FNE FON FOS FRA FRC FRI FRL FRP FTA FUL FUV GAD GAE GAG GAL \
    GAR GAW GEZ GIH GIL GIL0GKP GLK GMZ GNN GOG GON GRN GRO GUA GUC GUF GUJ GUZ HAI \
    HAL HAR HAU HAW HAY HAZ HBN HER HIL HIN HMA HMN HMO HND HO  HRI HRV HUN HYE HYE0\
    IBA IBB IBO IDO IJO ILE ILO INA IND ING INU IPK IPPHIRI IRT ISL ISM ITA IWR JAM \
    JAN JAV JBO JCT JII JUD JUL KAB KAB0KAC KAL KAN KAR KAT KAZ KDE KEA KEB KEK KGE \
    KHA KHK KHM KHS KHT KHV KHW KIK KIR KIS KIU KJD KJP KKN KLM KMB KMN KMO KMS KMZ \
    KNR KOD KOH KOK KOM KON KON0KOP KOR KOS KOZ KPL KRI KRK KRL KRM KRN KRT KSH KSH0\
    KSI KSM KSW KUA KUI KUL KUM KUR KUU KUY KYK KYU LAD LAH LAK LAM LAO LAT LAZ LCR \
    LDK LEZ LIJ LIM LIN LIS LJP LKI LMA LMB LMO LMW LOM LRC LSB LSM LTH LTZ LUA LUB \
    LUG LUH LUO LVI MAD MAG MAH MAJ MAK MAL MAM MAN MAP MAR MAW MBN MBO MCH MCR MDE \
    MDR MEN MER MFE MIN MIZ MKD MKR MKW MLE MLG MLN MLR MLY MND MNG MNI MNK MNX MOH \
    MOK MOL MON MOR MOS MRI MTH MTS MUN MUS MWL MWW MYN MZN NAG NAH NAN NAP NAS NAU \
    NAV NCR NDB NDC NDG NDS NEP NEW NGA NGR NHC NIS NIU NKL NKO NLD NOE NOG NOR NOV \
    NSM NSO NTA NTO NYM NYN NZA OCI OCR OJB ORI ORO OSS PAA PAG PAL PAM PAN PAP PAP0\
    PAS PAU PCC PCD PDC PGR PHK PIH PIL PLG PLK PMS PNB POH PON PRO PTG PWO QIN QUC \
    QUH QUZ QVI QWH RAJ RAR RBU RCR REJ RIA RIF RIT RKW RMS RMY ROM ROY RSY RTM RUA \
    RUN RUP RUS SAD SAN SAS SAT SAY SCN SCO SCS SEK SEL SGA SGO SGS SHI SHN SIB SID \
    SIG SKS SKY SLA SLV SML SMO SNA SNA0SND SNH SNK SOG SOP SOT SQI SRB SRD SRK SRR \
    SSL SSM STQ SUK SUN SUR SVA SVE SWA SWK SWZ SXT SXU SYL SYR SZL TAB TAJ TAM TAT \
    TCR TDD TEL TET TGL TGN TGR TGY THA THT TIB TIV TKM TMH TMN TNA TNE TNG TOD TOD0\
    TPI TRK TSG TUA TUL TUM TUV TVL TWI TYZ TZM TZO UDM UKR UMB URD USB UYG UZB VEC \
    VEN VIT VOL VRO WA  WAG WAR WCR WEL WLF WLN WTM XBD XHS XJB XOG XPE YAK YAO YAP \
    YBA YCR YIC YIM ZEA ZGH ZHA ZHH ZHP ZHS ZHT ZND ZUL ZZA ";

/* atan(k/255) * 2^32, k = 0..256 */
static const int64_t REF[257] = {
    0ll, 16842923ll, 33685327ll, 50526696ll, 67366511ll, 84204255ll, 101039411ll, 117871461ll,
    134699891ll, 151524185ll, 168343828ll, 185158307ll, 201967108ll, 218769721ll, 235565633ll, 252354337ll,
    269135324ll, 285908086ll, 302672120ll, 319426922ll, 336171989ll, 352906821ll, 369630921ll, 386343792ll,
    403044939ll, 419733871ll, 436410097ll, 453073130ll, 469722484ll, 486357677ll, 502978228ll, 519583659ll,
    536173495ll, 552747264ll, 569304496ll, 585844725ll, 602367487ll, 618872321ll, 635358769ll, 651826379ll,
    668274698ll, 684703278ll, 701111676ll, 717499450ll, 733866164ll, 750211382ll, 766534676ll, 782835618ll,
    799113786ll, 815368761ll, 831600127ll, 847807474ll, 863990394ll, 880148484ll, 896281345ll, 912388581ll,
    928469802ll, 944524620ll, 960552654ll, 976553525ll, 992526858ll, 1008472285ll, 1024389439ll, 1040277960ll,
    1056137492ll, 1071967682ll, 1087768183ll, 1103538652ll, 1119278750ll, 1134988143ll, 1150666503ll, 1166313503ll,
    1181928825ll, 1197512153ll, 1213063176ll, 1228581587ll, 1244067086ll, 1259519376ll, 1274938164ll, 1290323164ll,
    1305674092ll, 1320990672ll, 1336272629ll, 1351519696ll, 1366731609ll, 1381908109ll, 1397048941ll, 1412153857ll,
    1427222612ll, 1442254966ll, 1457250683ll, 1472209533ll, 1487131291ll, 1502015735ll, 1516862649ll, 1531671821ll,
    1546443044ll, 1561176116ll, 1575870839ll, 1590527020ll, 1605144469ll, 1619723005ll, 1634262446ll, 1648762618ll,
    1663223351ll, 1677644478ll, 1692025840ll, 1706367277ll, 1720668640ll, 1734929778ll, 1749150549ll, 1763330812ll,
    1777470435ll, 1791569284ll, 1805627234ll, 1819644164ll, 1833619954ll, 1847554491ll, 1861447666ll, 1875299372ll,
    1889109509ll, 1902877978ll, 1916604687ll, 1930289546ll, 1943932470ll, 1957533376ll, 1971092188ll, 1984608831ll,
    1998083236ll, 2011515335ll, 2024905067ll, 2038252372ll, 2051557196ll, 2064819486ll, 2078039194ll, 2091216277ll,
    2104350693ll, 2117442404ll, 2130491376ll, 2143497579ll, 2156460984ll, 2169381569ll, 2182259312ll, 2195094195ll,
    2207886204ll, 2220635327ll, 2233341557ll, 2246004887ll, 2258625317ll, 2271202846ll, 2283737479ll, 2296229222ll,
    2308678085ll, 2321084080ll, 2333447222ll, 2345767528ll, 2358045020ll, 2370279721ll, 2382471656ll, 2394620854ll,
    2406727345ll, 2418791164ll, 2430812346ll, 2442790929ll, 2454726954ll, 2466620464ll, 2478471504ll, 2490280122ll,
    2502046368ll, 2513770293ll, 2525451952ll, 2537091401ll, 2548688699ll, 2560243906ll, 2571757083ll, 2583228296ll,
    2594657611ll, 2606045095ll, 2617390819ll, 2628694855ll, 2639957277ll, 2651178158ll, 2662357578ll, 2673495614ll,
    2684592346ll, 2695647858ll, 2706662232ll, 2717635553ll, 2728567908ll, 2739459386ll, 2750310075ll, 2761120067ll,
    2771889454ll, 2782618330ll, 2793306790ll, 2803954930ll, 2814562847ll, 2825130641ll, 2835658411ll, 2846146259ll,
    2856594287ll, 2867002598ll, 2877371296ll, 2887700488ll, 2897990280ll, 2908240779ll, 2918452094ll, 2928624335ll,
    2938757611ll, 2948852034ll, 2958907717ll, 2968924771ll, 2978903312ll, 2988843453ll, 2998745311ll, 3008609000ll,
    3018434638ll, 3028222342ll, 3037972231ll, 3047684424ll, 3057359039ll, 3066996197ll, 3076596018ll, 3086158625ll,
    3095684137ll, 3105172679ll, 3114624371ll, 3124039339ll, 3133417704ll, 3142759592ll, 3152065127ll, 3161334434ll,
    3170567638ll, 3179764865ll, 3188926241ll, 3198051892ll, 3207141945ll, 3216196527ll, 3225215765ll, 3234199786ll,
    3243148718ll, 3252062689ll, 3260941828ll, 3269786262ll, 3278596120ll, 3287371531ll, 3296112623ll, 3304819526ll,
    3313492368ll, 3322131278ll, 3330736387ll, 3339307823ll, 3347845715ll, 3356350193ll, 3364821387ll, 3373259426ll,
    3381664439ll,
};

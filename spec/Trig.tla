-------------------------------- MODULE Trig --------------------------------
(* Sines and cosines of rational fractions of a turn, in millionths: a quarter
   wave for two moduli between them divisible by every denominator used. *)
EXTENDS Util
M1 == 10080
M2 == 9724
SinAt(tab, m, j) ==
    LET q == m \div 4
        k == j % m
    IN CASE k <= q -> tab[k + 1]
         [] k > q /\ k <= 2 * q -> tab[2 * q - k + 1]
         [] k > 2 * q /\ k <= 3 * q -> -tab[k - 2 * q + 1]
         [] OTHER -> -tab[m - k + 1]
T1 == <<
   0, 623, 1247, 1870, 2493, 3117, 3740, 4363, 4987, 5610, 6233, 6857, 7480, 8103, 8727, 9350,
   9973, 10596, 11220, 11843, 12466, 13090, 13713, 14336, 14959, 15583, 16206, 16829, 17452,
   18076, 18699, 19322, 19945, 20569, 21192, 21815, 22438, 23061, 23684, 24308, 24931, 25554,
   26177, 26800, 27423, 28046, 28669, 29292, 29915, 30539, 31162, 31785, 32408, 33031, 33654,
   34277, 34899, 35522, 36145, 36768, 37391, 38014, 38637, 39260, 39883, 40505, 41128, 41751,
   42374, 42997, 43619, 44242, 44865, 45488, 46110, 46733, 47356, 47978, 48601, 49223, 49846,
   50468, 51091, 51713, 52336, 52958, 53581, 54203, 54826, 55448, 56070, 56693, 57315, 57937,
   58560, 59182, 59804, 60426, 61049, 61671, 62293, 62915, 63537, 64159, 64781, 65403, 66025,
   66647, 67269, 67891, 68513, 69135, 69756, 70378, 71000, 71622, 72244, 72865, 73487, 74108,
   74730, 75352, 75973, 76595, 77216, 77838, 78459, 79080, 79702, 80323, 80944, 81566, 82187,
   82808, 83429, 84051, 84672, 85293, 85914, 86535, 87156, 87777, 88398, 89018, 89639, 90260,
   90881, 91502, 92122, 92743, 93364, 93984, 94605, 95225, 95846, 96466, 97087, 97707, 98327,
   98948, 99568, 100188, 100808, 101428, 102048, 102669, 103289, 103909, 104528, 105148, 105768,
   106388, 107008, 107628, 108247, 108867, 109486, 110106, 110726, 111345, 111964, 112584,
   113203, 113823, 114442, 115061, 115680, 116299, 116918, 117537, 118156, 118775, 119394,
   120013, 120632, 121251, 121869, 122488, 123107, 123725, 124344, 124962, 125581, 126199,
   126817, 127436, 128054, 128672, 129290, 129908, 130526, 131144, 131762, 132380, 132998,
   133616, 134233, 134851, 135469, 136086, 136704, 137321, 137938, 138556, 139173, 139790,
   140408, 141025, 141642, 142259, 142876, 143493, 144109, 144726, 145343, 145960, 146576,
   147193, 147809, 148426, 149042, 149659, 150275, 150891, 151507, 152123, 152739, 153355,
   153971, 154587, 155203, 155819, 156434, 157050, 157666, 158281, 158897, 159512, 160127,
   160743, 161358, 161973, 162588, 163203, 163818, 164433, 165048, 165662, 166277, 166892,
   167506, 168121, 168735, 169350, 169964, 170578, 171192, 171806, 172420, 173034, 173648,
   174262, 174876, 175489, 176103, 176717, 177330, 177944, 178557, 179170, 179783, 180397,
   181010, 181623, 182236, 182848, 183461, 184074, 184687, 185299, 185912, 186524, 187136,
   187749, 188361, 188973, 189585, 190197, 190809, 191421, 192033, 192644, 193256, 193867,
   194479, 195090, 195702, 196313, 196924, 197535, 198146, 198757, 199368, 199979, 200589,
   201200, 201811, 202421, 203031, 203642, 204252, 204862, 205472, 206082, 206692, 207302,
   207912, 208521, 209131, 209740, 210350, 210959, 211568, 212178, 212787, 213396, 214005,
   214614, 215222, 215831, 216440, 217048, 217657, 218265, 218873, 219481, 220089, 220697,
   221305, 221913, 222521, 223129, 223736, 224344, 224951, 225558, 226166, 226773, 227380,
   227987, 228594, 229200, 229807, 230414, 231020, 231627, 232233, 232839, 233445, 234051,
   234657, 235263, 235869, 236475, 237080, 237686, 238291, 238897, 239502, 240107, 240712,
   241317, 241922, 242527, 243131, 243736, 244340, 244945, 245549, 246153, 246757, 247361,
   247965, 248569, 249173, 249776, 250380, 250983, 251587, 252190, 252793, 253396, 253999,
   254602, 255205, 255807, 256410, 257012, 257615, 258217, 258819, 259421, 260023, 260625,
   261227, 261828, 262430, 263031, 263633, 264234, 264835, 265436, 266037, 266638, 267238,
   267839, 268439, 269040, 269640, 270240, 270840, 271440, 272040, 272640, 273240, 273839,
   274439, 275038, 275637, 276236, 276836, 277434, 278033, 278632, 279231, 279829, 280427,
   281026, 281624, 282222, 282820, 283418, 284015, 284613, 285210, 285808, 286405, 287002,
   287599, 288196, 288793, 289390, 289986, 290583, 291179, 291776, 292372, 292968, 293564,
   294159, 294755, 295351, 295946, 296542, 297137, 297732, 298327, 298922, 299517, 300111,
   300706, 301300, 301895, 302489, 303083, 303677, 304271, 304864, 305458, 306051, 306645,
   307238, 307831, 308424, 309017, 309610, 310202, 310795, 311387, 311980, 312572, 313164,
   313756, 314348, 314939, 315531, 316122, 316713, 317305, 317896, 318487, 319077, 319668,
   320259, 320849, 321439, 322030, 322620, 323210, 323799, 324389, 324979, 325568, 326157,
   326747, 327336, 327925, 328513, 329102, 329691, 330279, 330867, 331456, 332044, 332631,
   333219, 333807, 334394, 334982, 335569, 336156, 336743, 337330, 337917, 338503, 339090,
   339676, 340262, 340848, 341434, 342020, 342606, 343191, 343777, 344362, 344947, 345532,
   346117, 346702, 347286, 347871, 348455, 349039, 349623, 350207, 350791, 351375, 351958,
   352542, 353125, 353708, 354291, 354874, 355457, 356039, 356622, 357204, 357786, 358368,
   358950, 359532, 360113, 360695, 361276, 361857, 362438, 363019, 363600, 364180, 364761,
   365341, 365921, 366501, 367081, 367661, 368240, 368820, 369399, 369978, 370557, 371136,
   371715, 372294, 372872, 373450, 374029, 374607, 375184, 375762, 376340, 376917, 377494,
   378072, 378649, 379225, 379802, 380379, 380955, 381531, 382107, 382683, 383259, 383835,
   384410, 384986, 385561, 386136, 386711, 387286, 387860, 388435, 389009, 389583, 390157,
   390731, 391305, 391878, 392452, 393025, 393598, 394171, 394744, 395316, 395889, 396461,
   397033, 397605, 398177, 398749, 399321, 399892, 400463, 401034, 401605, 402176, 402747,
   403317, 403887, 404458, 405028, 405597, 406167, 406737, 407306, 407875, 408444, 409013,
   409582, 410150, 410719, 411287, 411855, 412423, 412991, 413559, 414126, 414693, 415260,
   415827, 416394, 416961, 417527, 418094, 418660, 419226, 419792, 420357, 420923, 421488,
   422053, 422618, 423183, 423748, 424312, 424877, 425441, 426005, 426569, 427132, 427696,
   428259, 428823, 429386, 429948, 430511, 431074, 431636, 432198, 432760, 433322, 433884,
   434445, 435007, 435568, 436129, 436690, 437250, 437811, 438371, 438931, 439491, 440051,
   440611, 441170, 441730, 442289, 442848, 443406, 443965, 444524, 445082, 445640, 446198,
   446756, 447313, 447871, 448428, 448985, 449542, 450098, 450655, 451211, 451768, 452324,
   452879, 453435, 453990, 454546, 455101, 455656, 456211, 456765, 457320, 457874, 458428,
   458982, 459536, 460089, 460642, 461196, 461749, 462301, 462854, 463407, 463959, 464511,
   465063, 465615, 466166, 466717, 467269, 467820, 468370, 468921, 469472, 470022, 470572,
   471122, 471672, 472221, 472770, 473320, 473869, 474417, 474966, 475515, 476063, 476611,
   477159, 477706, 478254, 478801, 479348, 479895, 480442, 480989, 481535, 482081, 482627,
   483173, 483719, 484264, 484810, 485355, 485900, 486444, 486989, 487533, 488077, 488621,
   489165, 489709, 490252, 490795, 491338, 491881, 492424, 492966, 493508, 494050, 494592,
   495134, 495675, 496217, 496758, 497298, 497839, 498380, 498920, 499460, 500000, 500540,
   501079, 501619, 502158, 502697, 503235, 503774, 504312, 504850, 505388, 505926, 506464,
   507001, 507538, 508075, 508612, 509149, 509685, 510221, 510757, 511293, 511829, 512364,
   512899, 513434, 513969, 514504, 515038, 515572, 516106, 516640, 517174, 517707, 518240,
   518773, 519306, 519839, 520371, 520903, 521435, 521967, 522499, 523030, 523561, 524092,
   524623, 525153, 525684, 526214, 526744, 527274, 527803, 528332, 528862, 529391, 529919,
   530448, 530976, 531504, 532032, 532560, 533087, 533615, 534142, 534668, 535195, 535722,
   536248, 536774, 537300, 537825, 538351, 538876, 539401, 539926, 540450, 540974, 541499,
   542023, 542546, 543070, 543593, 544116, 544639, 545162, 545684, 546206, 546728, 547250,
   547772, 548293, 548814, 549335, 549856, 550377, 550897, 551417, 551937, 552457, 552976,
   553495, 554014, 554533, 555052, 555570, 556088, 556606, 557124, 557642, 558159, 558676,
   559193, 559710, 560226, 560742, 561258, 561774, 562290, 562805, 563320, 563835, 564350,
   564864, 565378, 565892, 566406, 566920, 567433, 567946, 568459, 568972, 569484, 569997,
   570509, 571021, 571532, 572044, 572555, 573066, 573576, 574087, 574597, 575107, 575617,
   576127, 576636, 577145, 577654, 578163, 578671, 579180, 579688, 580195, 580703, 581210,
   581717, 582224, 582731, 583237, 583744, 584250, 584755, 585261, 585766, 586271, 586776,
   587281, 587785, 588289, 588793, 589297, 589801, 590304, 590807, 591310, 591812, 592315,
   592817, 593319, 593820, 594322, 594823, 595324, 595824, 596325, 596825, 597325, 597825,
   598325, 598824, 599323, 599822, 600321, 600819, 601317, 601815, 602313, 602810, 603307,
   603804, 604301, 604798, 605294, 605790, 606286, 606781, 607277, 607772, 608267, 608761,
   609256, 609750, 610244, 610738, 611231, 611724, 612217, 612710, 613203, 613695, 614187,
   614679, 615170, 615661, 616153, 616643, 617134, 617624, 618114, 618604, 619094, 619583,
   620072, 620561, 621050, 621539, 622027, 622515, 623002, 623490, 623977, 624464, 624951,
   625437, 625923, 626409, 626895, 627381, 627866, 628351, 628836, 629320, 629805, 630289,
   630773, 631256, 631739, 632223, 632705, 633188, 633670, 634152, 634634, 635116, 635597,
   636078, 636559, 637040, 637520, 638000, 638480, 638960, 639439, 639918, 640397, 640876,
   641354, 641832, 642310, 642788, 643265, 643742, 644219, 644696, 645172, 645648, 646124,
   646600, 647075, 647550, 648025, 648500, 648974, 649448, 649922, 650396, 650869, 651342,
   651815, 652287, 652760, 653232, 653704, 654175, 654647, 655118, 655588, 656059, 656529,
   656999, 657469, 657939, 658408, 658877, 659346, 659814, 660283, 660751, 661218, 661686,
   662153, 662620, 663087, 663553, 664019, 664485, 664951, 665416, 665882, 666347, 666811,
   667276, 667740, 668204, 668667, 669131, 669594, 670057, 670519, 670981, 671443, 671905,
   672367, 672828, 673289, 673750, 674210, 674671, 675131, 675590, 676050, 676509, 676968,
   677426, 677885, 678343, 678801, 679258, 679716, 680173, 680630, 681086, 681542, 681998,
   682454, 682910, 683365, 683820, 684274, 684729, 685183, 685637, 686090, 686544, 686997,
   687450, 687902, 688355, 688807, 689258, 689710, 690161, 690612, 691063, 691513, 691963,
   692413, 692863, 693312, 693761, 694210, 694658, 695107, 695555, 696002, 696450, 696897,
   697344, 697790, 698237, 698683, 699129, 699574, 700020, 700465, 700909, 701354, 701798,
   702242, 702685, 703129, 703572, 704015, 704457, 704900, 705342, 705783, 706225, 706666,
   707107, 707547, 707988, 708428, 708868, 709307, 709746, 710185, 710624, 711062, 711501,
   711939, 712376, 712813, 713250, 713687, 714124, 714560, 714996, 715431, 715867, 716302,
   716737, 717171, 717606, 718040, 718473, 718907, 719340, 719773, 720205, 720638, 721070,
   721501, 721933, 722364, 722795, 723225, 723656, 724086, 724516, 724945, 725374, 725803,
   726232, 726660, 727088, 727516, 727944, 728371, 728798, 729225, 729651, 730077, 730503,
   730928, 731354, 731779, 732203, 732628, 733052, 733476, 733899, 734323, 734745, 735168,
   735591, 736013, 736435, 736856, 737277, 737698, 738119, 738539, 738960, 739379, 739799,
   740218, 740637, 741056, 741474, 741892, 742310, 742728, 743145, 743562, 743978, 744395,
   744811, 745227, 745642, 746057, 746472, 746887, 747301, 747715, 748129, 748543, 748956,
   749369, 749781, 750194, 750606, 751017, 751429, 751840, 752251, 752661, 753071, 753481,
   753891, 754300, 754710, 755118, 755527, 755935, 756343, 756751, 757158, 757565, 757972,
   758378, 758784, 759190, 759596, 760001, 760406, 760811, 761215, 761619, 762023, 762426,
   762830, 763232, 763635, 764037, 764439, 764841, 765243, 765644, 766044, 766445, 766845,
   767245, 767645, 768044, 768443, 768842, 769240, 769638, 770036, 770434, 770831, 771228,
   771625, 772021, 772417, 772813, 773208, 773603, 773998, 774393, 774787, 775181, 775574,
   775968, 776361, 776754, 777146, 777538, 777930, 778321, 778713, 779104, 779494, 779884,
   780274, 780664, 781054, 781443, 781831, 782220, 782608, 782996, 783384, 783771, 784158,
   784545, 784931, 785317, 785703, 786088, 786473, 786858, 787243, 787627, 788011, 788394,
   788778, 789161, 789543, 789926, 790308, 790690, 791071, 791452, 791833, 792214, 792594,
   792974, 793353, 793733, 794112, 794490, 794869, 795247, 795625, 796002, 796379, 796756,
   797133, 797509, 797885, 798260, 798636, 799010, 799385, 799760, 800134, 800507, 800881,
   801254, 801627, 801999, 802371, 802743, 803115, 803486, 803857, 804227, 804598, 804968,
   805337, 805707, 806076, 806445, 806813, 807181, 807549, 807916, 808284, 808650, 809017,
   809383, 809749, 810115, 810480, 810845, 811210, 811574, 811938, 812302, 812665, 813028,
   813391, 813753, 814116, 814477, 814839, 815200, 815561, 815921, 816282, 816642, 817001,
   817360, 817719, 818078, 818436, 818794, 819152, 819509, 819866, 820223, 820580, 820936,
   821291, 821647, 822002, 822357, 822711, 823066, 823419, 823773, 824126, 824479, 824832,
   825184, 825536, 825887, 826239, 826590, 826940, 827291, 827641, 827990, 828340, 828689,
   829038, 829386, 829734, 830082, 830429, 830776, 831123, 831470, 831816, 832162, 832507,
   832852, 833197, 833542, 833886, 834230, 834573, 834916, 835259, 835602, 835944, 836286,
   836628, 836969, 837310, 837651, 837991, 838331, 838671, 839010, 839349, 839688, 840026,
   840364, 840702, 841039, 841376, 841713, 842049, 842385, 842721, 843056, 843391, 843726,
   844061, 844395, 844728, 845062, 845395, 845728, 846060, 846392, 846724, 847056, 847387,
   847718, 848048, 848378, 848708, 849038, 849367, 849696, 850024, 850352, 850680, 851008,
   851335, 851662, 851988, 852314, 852640, 852966, 853291, 853616, 853940, 854264, 854588,
   854912, 855235, 855558, 855880, 856203, 856525, 856846, 857167, 857488, 857809, 858129,
   858449, 858768, 859088, 859406, 859725, 860043, 860361, 860679, 860996, 861313, 861629,
   861945, 862261, 862577, 862892, 863207, 863521, 863836, 864149, 864463, 864776, 865089,
   865401, 865714, 866025, 866337, 866648, 866959, 867269, 867580, 867889, 868199, 868508,
   868817, 869125, 869433, 869741, 870049, 870356, 870662, 870969, 871275, 871581, 871886,
   872191, 872496, 872800, 873104, 873408, 873712, 874015, 874317, 874620, 874922, 875223,
   875525, 875826, 876126, 876427, 876727, 877026, 877326, 877625, 877923, 878222, 878520,
   878817, 879114, 879411, 879708, 880004, 880300, 880596, 880891, 881186, 881480, 881774,
   882068, 882362, 882655, 882948, 883240, 883532, 883824, 884115, 884406, 884697, 884988,
   885278, 885567, 885857, 886146, 886434, 886723, 887011, 887298, 887586, 887873, 888159,
   888446, 888732, 889017, 889302, 889587, 889872, 890156, 890440, 890723, 891007, 891289,
   891572, 891854, 892136, 892417, 892698, 892979, 893259, 893539, 893819, 894098, 894377,
   894656, 894934, 895212, 895490, 895767, 896044, 896321, 896597, 896873, 897148, 897423,
   897698, 897973, 898247, 898521, 898794, 899067, 899340, 899612, 899884, 900156, 900427,
   900698, 900969, 901239, 901509, 901779, 902048, 902317, 902585, 902853, 903121, 903389,
   903656, 903923, 904189, 904455, 904721, 904986, 905251, 905516, 905780, 906044, 906308,
   906571, 906834, 907096, 907359, 907621, 907882, 908143, 908404, 908664, 908924, 909184,
   909444, 909703, 909961, 910220, 910478, 910735, 910992, 911249, 911506, 911762, 912018,
   912273, 912528, 912783, 913038, 913292, 913545, 913799, 914052, 914304, 914557, 914809,
   915060, 915311, 915562, 915813, 916063, 916313, 916562, 916811, 917060, 917308, 917556,
   917804, 918051, 918298, 918545, 918791, 919037, 919283, 919528, 919773, 920017, 920261,
   920505, 920748, 920991, 921234, 921476, 921718, 921960, 922201, 922442, 922682, 922923,
   923162, 923402, 923641, 923880, 924118, 924356, 924594, 924831, 925068, 925304, 925541,
   925776, 926012, 926247, 926482, 926716, 926950, 927184, 927417, 927650, 927883, 928115,
   928347, 928578, 928810, 929040, 929271, 929501, 929731, 929960, 930189, 930418, 930646,
   930874, 931101, 931328, 931555, 931782, 932008, 932234, 932459, 932684, 932909, 933133,
   933357, 933580, 933804, 934026, 934249, 934471, 934693, 934914, 935135, 935356, 935576,
   935796, 936016, 936235, 936454, 936672, 936890, 937108, 937325, 937542, 937759, 937975,
   938191, 938407, 938622, 938837, 939051, 939266, 939479, 939693, 939906, 940118, 940331,
   940542, 940754, 940965, 941176, 941386, 941597, 941806, 942016, 942225, 942433, 942641,
   942849, 943057, 943264, 943471, 943677, 943883, 944089, 944294, 944499, 944704, 944908,
   945112, 945315, 945519, 945721, 945924, 946126, 946327, 946529, 946730, 946930, 947130,
   947330, 947530, 947729, 947927, 948126, 948324, 948521, 948718, 948915, 949112, 949308,
   949504, 949699, 949894, 950089, 950283, 950477, 950671, 950864, 951057, 951249, 951441,
   951633, 951824, 952015, 952206, 952396, 952586, 952775, 952964, 953153, 953341, 953529,
   953717, 953904, 954091, 954278, 954464, 954650, 954835, 955020, 955205, 955389, 955573,
   955756, 955940, 956122, 956305, 956487, 956669, 956850, 957031, 957211, 957392, 957571,
   957751, 957930, 958109, 958287, 958465, 958643, 958820, 958997, 959173, 959349, 959525,
   959700, 959875, 960050, 960224, 960398, 960571, 960745, 960917, 961090, 961262, 961433,
   961605, 961775, 961946, 962116, 962286, 962455, 962624, 962793, 962961, 963129, 963297,
   963464, 963630, 963797, 963963, 964129, 964294, 964459, 964623, 964787, 964951, 965114,
   965278, 965440, 965602, 965764, 965926, 966087, 966248, 966408, 966568, 966728, 966887,
   967046, 967204, 967363, 967520, 967678, 967835, 967991, 968148, 968304, 968459, 968614,
   968769, 968923, 969077, 969231, 969384, 969537, 969690, 969842, 969993, 970145, 970296,
   970446, 970597, 970746, 970896, 971045, 971194, 971342, 971490, 971638, 971785, 971932,
   972078, 972224, 972370, 972515, 972660, 972805, 972949, 973093, 973236, 973379, 973522,
   973664, 973806, 973948, 974089, 974230, 974370, 974510, 974650, 974789, 974928, 975066,
   975205, 975342, 975480, 975617, 975753, 975890, 976025, 976161, 976296, 976431, 976565,
   976699, 976833, 976966, 977099, 977231, 977363, 977495, 977626, 977757, 977888, 978018,
   978148, 978277, 978406, 978535, 978663, 978791, 978918, 979045, 979172, 979299, 979425,
   979550, 979675, 979800, 979925, 980049, 980172, 980296, 980419, 980541, 980663, 980785,
   980907, 981028, 981148, 981269, 981389, 981508, 981627, 981746, 981864, 981982, 982100,
   982217, 982334, 982450, 982566, 982682, 982797, 982912, 983027, 983141, 983255, 983368,
   983481, 983594, 983706, 983818, 983930, 984041, 984151, 984262, 984372, 984481, 984591,
   984699, 984808, 984916, 985023, 985131, 985238, 985344, 985450, 985556, 985661, 985766,
   985871, 985975, 986079, 986183, 986286, 986388, 986491, 986593, 986694, 986795, 986896,
   986996, 987096, 987196, 987295, 987394, 987493, 987591, 987688, 987786, 987883, 987979,
   988075, 988171, 988266, 988362, 988456, 988550, 988644, 988738, 988831, 988924, 989016,
   989108, 989199, 989291, 989381, 989472, 989562, 989651, 989741, 989830, 989918, 990006,
   990094, 990181, 990268, 990355, 990441, 990527, 990612, 990697, 990782, 990866, 990950,
   991033, 991116, 991199, 991281, 991363, 991445, 991526, 991607, 991687, 991767, 991847,
   991926, 992005, 992083, 992162, 992239, 992317, 992393, 992470, 992546, 992622, 992697,
   992772, 992847, 992921, 992995, 993068, 993142, 993214, 993287, 993358, 993430, 993501,
   993572, 993642, 993712, 993782, 993851, 993920, 993988, 994056, 994124, 994191, 994258,
   994325, 994391, 994457, 994522, 994587, 994651, 994716, 994779, 994843, 994906, 994969,
   995031, 995093, 995154, 995215, 995276, 995336, 995396, 995456, 995515, 995574, 995632,
   995690, 995748, 995805, 995862, 995918, 995974, 996030, 996085, 996140, 996195, 996249,
   996303, 996356, 996409, 996461, 996514, 996566, 996617, 996668, 996719, 996769, 996819,
   996868, 996917, 996966, 997014, 997062, 997110, 997157, 997204, 997250, 997296, 997342,
   997387, 997432, 997476, 997520, 997564, 997607, 997650, 997693, 997735, 997777, 997818,
   997859, 997899, 997940, 997979, 998019, 998058, 998097, 998135, 998173, 998210, 998247,
   998284, 998320, 998356, 998392, 998427, 998462, 998496, 998530, 998564, 998597, 998630,
   998662, 998694, 998726, 998757, 998788, 998818, 998848, 998878, 998907, 998936, 998965,
   998993, 999021, 999048, 999075, 999102, 999128, 999154, 999179, 999204, 999229, 999253,
   999277, 999301, 999324, 999347, 999369, 999391, 999412, 999434, 999454, 999475, 999495,
   999514, 999534, 999552, 999571, 999589, 999607, 999624, 999641, 999657, 999673, 999689,
   999705, 999719, 999734, 999748, 999762, 999775, 999788, 999801, 999813, 999825, 999837,
   999848, 999858, 999869, 999879, 999888, 999897, 999906, 999914, 999922, 999930, 999937,
   999944, 999950, 999956, 999962, 999967, 999972, 999976, 999981, 999984, 999988, 999990,
   999993, 999995, 999997, 999998, 999999, 1000000, 1000000 >>
T2 == <<
   0, 646, 1292, 1938, 2585, 3231, 3877, 4523, 5169, 5815, 6461, 7108, 7754, 8400, 9046, 9692,
   10338, 10984, 11630, 12277, 12923, 13569, 14215, 14861, 15507, 16153, 16799, 17445, 18091,
   18737, 19383, 20029, 20675, 21321, 21967, 22613, 23259, 23905, 24551, 25197, 25843, 26489,
   27135, 27781, 28427, 29073, 29719, 30364, 31010, 31656, 32302, 32948, 33594, 34239, 34885,
   35531, 36177, 36822, 37468, 38114, 38759, 39405, 40051, 40696, 41342, 41988, 42633, 43279,
   43924, 44570, 45215, 45861, 46506, 47152, 47797, 48442, 49088, 49733, 50379, 51024, 51669,
   52314, 52960, 53605, 54250, 54895, 55541, 56186, 56831, 57476, 58121, 58766, 59411, 60056,
   60701, 61346, 61991, 62636, 63281, 63925, 64570, 65215, 65860, 66505, 67149, 67794, 68439,
   69083, 69728, 70372, 71017, 71661, 72306, 72950, 73595, 74239, 74884, 75528, 76172, 76816,
   77461, 78105, 78749, 79393, 80037, 80681, 81325, 81969, 82613, 83257, 83901, 84545, 85189,
   85833, 86476, 87120, 87764, 88407, 89051, 89694, 90338, 90981, 91625, 92268, 92912, 93555,
   94198, 94842, 95485, 96128, 96771, 97414, 98057, 98700, 99343, 99986, 100629, 101272, 101915,
   102558, 103200, 103843, 104486, 105128, 105771, 106413, 107056, 107698, 108341, 108983,
   109625, 110267, 110910, 111552, 112194, 112836, 113478, 114120, 114762, 115404, 116045,
   116687, 117329, 117971, 118612, 119254, 119895, 120537, 121178, 121819, 122461, 123102,
   123743, 124384, 125026, 125667, 126308, 126949, 127589, 128230, 128871, 129512, 130152,
   130793, 131434, 132074, 132715, 133355, 133995, 134636, 135276, 135916, 136556, 137196,
   137836, 138476, 139116, 139756, 140396, 141036, 141675, 142315, 142954, 143594, 144233,
   144873, 145512, 146151, 146790, 147430, 148069, 148708, 149347, 149985, 150624, 151263,
   151902, 152540, 153179, 153817, 154456, 155094, 155732, 156371, 157009, 157647, 158285,
   158923, 159561, 160199, 160836, 161474, 162112, 162749, 163387, 164024, 164662, 165299,
   165936, 166573, 167210, 167847, 168484, 169121, 169758, 170395, 171032, 171668, 172305,
   172941, 173577, 174214, 174850, 175486, 176122, 176758, 177394, 178030, 178666, 179302,
   179937, 180573, 181208, 181844, 182479, 183114, 183750, 184385, 185020, 185655, 186290,
   186924, 187559, 188194, 188828, 189463, 190097, 190731, 191366, 192000, 192634, 193268,
   193902, 194536, 195170, 195803, 196437, 197070, 197704, 198337, 198970, 199604, 200237,
   200870, 201503, 202136, 202768, 203401, 204034, 204666, 205299, 205931, 206563, 207195,
   207827, 208459, 209091, 209723, 210355, 210987, 211618, 212250, 212881, 213512, 214143,
   214775, 215406, 216037, 216667, 217298, 217929, 218559, 219190, 219820, 220451, 221081,
   221711, 222341, 222971, 223601, 224230, 224860, 225490, 226119, 226749, 227378, 228007,
   228636, 229265, 229894, 230523, 231151, 231780, 232409, 233037, 233665, 234293, 234922,
   235550, 236178, 236805, 237433, 238061, 238688, 239316, 239943, 240570, 241197, 241824,
   242451, 243078, 243705, 244331, 244958, 245584, 246211, 246837, 247463, 248089, 248715,
   249341, 249966, 250592, 251217, 251843, 252468, 253093, 253718, 254343, 254968, 255593,
   256218, 256842, 257466, 258091, 258715, 259339, 259963, 260587, 261211, 261834, 262458,
   263081, 263705, 264328, 264951, 265574, 266197, 266820, 267442, 268065, 268687, 269310,
   269932, 270554, 271176, 271798, 272420, 273041, 273663, 274284, 274906, 275527, 276148,
   276769, 277390, 278011, 278631, 279252, 279872, 280492, 281113, 281733, 282352, 282972,
   283592, 284212, 284831, 285450, 286070, 286689, 287308, 287926, 288545, 289164, 289782,
   290401, 291019, 291637, 292255, 292873, 293491, 294108, 294726, 295343, 295960, 296578,
   297195, 297811, 298428, 299045, 299661, 300278, 300894, 301510, 302126, 302742, 303358,
   303974, 304589, 305204, 305820, 306435, 307050, 307665, 308279, 308894, 309509, 310123,
   310737, 311351, 311965, 312579, 313193, 313806, 314420, 315033, 315646, 316259, 316872,
   317485, 318098, 318710, 319323, 319935, 320547, 321159, 321771, 322383, 322994, 323606,
   324217, 324828, 325439, 326050, 326661, 327271, 327882, 328492, 329103, 329713, 330323,
   330932, 331542, 332152, 332761, 333370, 333979, 334588, 335197, 335806, 336415, 337023,
   337631, 338239, 338847, 339455, 340063, 340670, 341278, 341885, 342492, 343099, 343706,
   344313, 344920, 345526, 346132, 346738, 347344, 347950, 348556, 349161, 349767, 350372,
   350977, 351582, 352187, 352792, 353396, 354001, 354605, 355209, 355813, 356417, 357020,
   357624, 358227, 358830, 359433, 360036, 360639, 361242, 361844, 362446, 363049, 363651,
   364252, 364854, 365456, 366057, 366658, 367259, 367860, 368461, 369062, 369662, 370262,
   370862, 371462, 372062, 372662, 373262, 373861, 374460, 375059, 375658, 376257, 376855,
   377454, 378052, 378650, 379248, 379846, 380444, 381041, 381638, 382236, 382833, 383430,
   384026, 384623, 385219, 385815, 386411, 387007, 387603, 388199, 388794, 389389, 389984,
   390579, 391174, 391768, 392363, 392957, 393551, 394145, 394739, 395333, 395926, 396519,
   397112, 397705, 398298, 398891, 399483, 400075, 400667, 401259, 401851, 402443, 403034,
   403625, 404217, 404807, 405398, 405989, 406579, 407169, 407760, 408349, 408939, 409529,
   410118, 410707, 411296, 411885, 412474, 413063, 413651, 414239, 414827, 415415, 416003,
   416590, 417178, 417765, 418352, 418938, 419525, 420112, 420698, 421284, 421870, 422456,
   423041, 423627, 424212, 424797, 425382, 425966, 426551, 427135, 427719, 428303, 428887,
   429471, 430054, 430637, 431221, 431803, 432386, 432969, 433551, 434133, 434715, 435297,
   435879, 436460, 437041, 437622, 438203, 438784, 439365, 439945, 440525, 441105, 441685,
   442265, 442844, 443423, 444002, 444581, 445160, 445738, 446317, 446895, 447473, 448051,
   448628, 449205, 449783, 450360, 450936, 451513, 452090, 452666, 453242, 453818, 454393,
   454969, 455544, 456119, 456694, 457269, 457844, 458418, 458992, 459566, 460140, 460713,
   461287, 461860, 462433, 463006, 463579, 464151, 464723, 465295, 465867, 466439, 467010,
   467581, 468153, 468723, 469294, 469865, 470435, 471005, 471575, 472145, 472714, 473283,
   473852, 474421, 474990, 475559, 476127, 476695, 477263, 477831, 478398, 478965, 479533,
   480099, 480666, 481233, 481799, 482365, 482931, 483497, 484062, 484628, 485193, 485758,
   486322, 486887, 487451, 488015, 488579, 489143, 489706, 490269, 490832, 491395, 491958,
   492520, 493083, 493645, 494207, 494768, 495330, 495891, 496452, 497013, 497573, 498134,
   498694, 499254, 499813, 500373, 500932, 501491, 502050, 502609, 503168, 503726, 504284,
   504842, 505400, 505957, 506514, 507071, 507628, 508185, 508741, 509297, 509853, 510409,
   510964, 511520, 512075, 512630, 513185, 513739, 514293, 514847, 515401, 515955, 516508,
   517061, 517614, 518167, 518720, 519272, 519824, 520376, 520928, 521479, 522030, 522581,
   523132, 523683, 524233, 524783, 525333, 525883, 526432, 526981, 527530, 528079, 528628,
   529176, 529724, 530272, 530820, 531368, 531915, 532462, 533009, 533555, 534102, 534648,
   535194, 535740, 536285, 536830, 537375, 537920, 538465, 539009, 539553, 540097, 540641,
   541184, 541728, 542271, 542813, 543356, 543898, 544440, 544982, 545524, 546065, 546606,
   547147, 547688, 548229, 548769, 549309, 549849, 550388, 550928, 551467, 552006, 552545,
   553083, 553621, 554159, 554697, 555234, 555772, 556309, 556846, 557382, 557919, 558455,
   558991, 559526, 560062, 560597, 561132, 561666, 562201, 562735, 563269, 563803, 564337,
   564870, 565403, 565936, 566468, 567001, 567533, 568065, 568596, 569128, 569659, 570190,
   570721, 571251, 571781, 572311, 572841, 573371, 573900, 574429, 574958, 575486, 576015,
   576543, 577070, 577598, 578125, 578652, 579179, 579706, 580232, 580758, 581284, 581810,
   582335, 582861, 583386, 583910, 584435, 584959, 585483, 586006, 586530, 587053, 587576,
   588099, 588621, 589144, 589666, 590187, 590709, 591230, 591751, 592272, 592792, 593313,
   593833, 594352, 594872, 595391, 595910, 596429, 596947, 597466, 597984, 598501, 599019,
   599536, 600053, 600570, 601087, 601603, 602119, 602635, 603150, 603665, 604180, 604695,
   605210, 605724, 606238, 606752, 607265, 607778, 608291, 608804, 609317, 609829, 610341,
   610853, 611364, 611875, 612386, 612897, 613407, 613917, 614427, 614937, 615446, 615956,
   616465, 616973, 617482, 617990, 618498, 619005, 619512, 620020, 620526, 621033, 621539,
   622045, 622551, 623057, 623562, 624067, 624572, 625076, 625580, 626084, 626588, 627092,
   627595, 628098, 628600, 629103, 629605, 630107, 630608, 631110, 631611, 632112, 632612,
   633112, 633613, 634112, 634612, 635111, 635610, 636109, 636607, 637105, 637603, 638101,
   638598, 639095, 639592, 640089, 640585, 641081, 641577, 642072, 642568, 643063, 643557,
   644052, 644546, 645040, 645533, 646027, 646520, 647013, 647505, 647997, 648489, 648981,
   649473, 649964, 650455, 650945, 651436, 651926, 652416, 652905, 653395, 653884, 654372,
   654861, 655349, 655837, 656324, 656812, 657299, 657786, 658272, 658759, 659245, 659730,
   660216, 660701, 661186, 661670, 662155, 662639, 663123, 663606, 664089, 664572, 665055,
   665537, 666020, 666501, 666983, 667464, 667945, 668426, 668906, 669387, 669867, 670346,
   670826, 671305, 671783, 672262, 672740, 673218, 673696, 674173, 674650, 675127, 675603,
   676080, 676556, 677031, 677507, 677982, 678457, 678931, 679405, 679879, 680353, 680827,
   681300, 681773, 682245, 682717, 683189, 683661, 684132, 684604, 685074, 685545, 686015,
   686485, 686955, 687424, 687894, 688362, 688831, 689299, 689767, 690235, 690702, 691169,
   691636, 692103, 692569, 693035, 693501, 693966, 694431, 694896, 695360, 695825, 696289,
   696752, 697216, 697679, 698141, 698604, 699066, 699528, 699990, 700451, 700912, 701373,
   701833, 702293, 702753, 703212, 703672, 704131, 704589, 705048, 705506, 705964, 706421,
   706878, 707335, 707792, 708248, 708704, 709160, 709615, 710070, 710525, 710980, 711434,
   711888, 712342, 712795, 713248, 713701, 714153, 714605, 715057, 715509, 715960, 716411,
   716862, 717312, 717762, 718212, 718661, 719110, 719559, 720008, 720456, 720904, 721352,
   721799, 722246, 722693, 723139, 723585, 724031, 724477, 724922, 725367, 725812, 726256,
   726700, 727144, 727587, 728030, 728473, 728916, 729358, 729800, 730241, 730683, 731124,
   731564, 732005, 732445, 732884, 733324, 733763, 734202, 734640, 735079, 735517, 735954,
   736392, 736829, 737265, 737702, 738138, 738573, 739009, 739444, 739879, 740313, 740748,
   741182, 741615, 742049, 742482, 742914, 743347, 743779, 744210, 744642, 745073, 745504,
   745934, 746364, 746794, 747224, 747653, 748082, 748511, 748939, 749367, 749795, 750222,
   750649, 751076, 751502, 751929, 752354, 752780, 753205, 753630, 754054, 754479, 754903,
   755326, 755750, 756173, 756595, 757018, 757440, 757861, 758283, 758704, 759125, 759545,
   759965, 760385, 760804, 761224, 761643, 762061, 762479, 762897, 763315, 763732, 764149,
   764566, 764982, 765398, 765814, 766229, 766644, 767059, 767473, 767887, 768301, 768714,
   769128, 769540, 769953, 770365, 770777, 771188, 771599, 772010, 772421, 772831, 773241,
   773651, 774060, 774469, 774877, 775286, 775694, 776101, 776508, 776915, 777322, 777728,
   778134, 778540, 778946, 779351, 779755, 780160, 780564, 780967, 781371, 781774, 782177,
   782579, 782981, 783383, 783784, 784186, 784586, 784987, 785387, 785787, 786186, 786585,
   786984, 787383, 787781, 788179, 788576, 788973, 789370, 789767, 790163, 790559, 790954,
   791350, 791744, 792139, 792533, 792927, 793321, 793714, 794107, 794499, 794891, 795283,
   795675, 796066, 796457, 796848, 797238, 797628, 798017, 798406, 798795, 799184, 799572,
   799960, 800348, 800735, 801122, 801508, 801894, 802280, 802666, 803051, 803436, 803821,
   804205, 804589, 804972, 805355, 805738, 806121, 806503, 806885, 807266, 807648, 808028,
   808409, 808789, 809169, 809548, 809928, 810306, 810685, 811063, 811441, 811818, 812195,
   812572, 812949, 813325, 813700, 814076, 814451, 814826, 815200, 815574, 815948, 816321,
   816694, 817067, 817439, 817811, 818183, 818554, 818925, 819296, 819666, 820036, 820406,
   820775, 821144, 821513, 821881, 822249, 822617, 822984, 823351, 823717, 824083, 824449,
   824815, 825180, 825545, 825909, 826273, 826637, 827001, 827364, 827727, 828089, 828451,
   828813, 829174, 829535, 829896, 830256, 830616, 830976, 831335, 831694, 832053, 832411,
   832769, 833126, 833483, 833840, 834197, 834553, 834909, 835264, 835619, 835974, 836328,
   836683, 837036, 837390, 837743, 838095, 838448, 838800, 839151, 839502, 839853, 840204,
   840554, 840904, 841254, 841603, 841952, 842300, 842648, 842996, 843343, 843690, 844037,
   844383, 844729, 845075, 845420, 845765, 846110, 846454, 846798, 847141, 847485, 847827,
   848170, 848512, 848854, 849195, 849536, 849877, 850217, 850557, 850897, 851236, 851575,
   851913, 852252, 852590, 852927, 853264, 853601, 853937, 854273, 854609, 854944, 855279,
   855614, 855948, 856282, 856616, 856949, 857282, 857614, 857947, 858278, 858610, 858941,
   859271, 859602, 859932, 860261, 860591, 860920, 861248, 861576, 861904, 862232, 862559,
   862885, 863212, 863538, 863864, 864189, 864514, 864838, 865163, 865486, 865810, 866133,
   866456, 866778, 867100, 867422, 867743, 868064, 868385, 868705, 869025, 869345, 869664,
   869982, 870301, 870619, 870937, 871254, 871571, 871888, 872204, 872520, 872835, 873150,
   873465, 873780, 874094, 874407, 874721, 875034, 875346, 875658, 875970, 876282, 876593,
   876904, 877214, 877524, 877834, 878143, 878452, 878761, 879069, 879377, 879684, 879991,
   880298, 880604, 880910, 881216, 881521, 881826, 882131, 882435, 882739, 883042, 883345,
   883648, 883950, 884252, 884554, 884855, 885156, 885456, 885756, 886056, 886355, 886654,
   886953, 887251, 887549, 887846, 888144, 888440, 888737, 889033, 889328, 889624, 889919,
   890213, 890507, 890801, 891095, 891388, 891680, 891973, 892264, 892556, 892847, 893138,
   893428, 893719, 894008, 894298, 894587, 894875, 895163, 895451, 895739, 896026, 896312,
   896599, 896885, 897170, 897455, 897740, 898025, 898309, 898593, 898876, 899159, 899441,
   899724, 900005, 900287, 900568, 900849, 901129, 901409, 901689, 901968, 902247, 902525,
   902803, 903081, 903358, 903635, 903912, 904188, 904464, 904739, 905014, 905289, 905563,
   905837, 906110, 906384, 906656, 906929, 907201, 907472, 907744, 908015, 908285, 908555,
   908825, 909094, 909363, 909632, 909900, 910168, 910436, 910703, 910969, 911236, 911502,
   911767, 912032, 912297, 912562, 912826, 913089, 913353, 913616, 913878, 914140, 914402,
   914663, 914924, 915185, 915445, 915705, 915964, 916224, 916482, 916741, 916999, 917256,
   917513, 917770, 918026, 918282, 918538, 918793, 919048, 919303, 919557, 919811, 920064,
   920317, 920569, 920822, 921073, 921325, 921576, 921826, 922077, 922327, 922576, 922825,
   923074, 923322, 923570, 923818, 924065, 924312, 924558, 924804, 925050, 925295, 925540,
   925784, 926028, 926272, 926515, 926758, 927001, 927243, 927485, 927726, 927967, 928208,
   928448, 928688, 928927, 929166, 929405, 929643, 929881, 930119, 930356, 930592, 930829,
   931065, 931300, 931535, 931770, 932005, 932239, 932472, 932705, 932938, 933171, 933403,
   933634, 933866, 934097, 934327, 934557, 934787, 935016, 935245, 935474, 935702, 935930,
   936157, 936384, 936611, 936837, 937063, 937288, 937513, 937738, 937962, 938186, 938409,
   938632, 938855, 939077, 939299, 939521, 939742, 939962, 940183, 940403, 940622, 940841,
   941060, 941278, 941496, 941714, 941931, 942148, 942364, 942580, 942796, 943011, 943226,
   943440, 943654, 943868, 944081, 944294, 944507, 944719, 944930, 945142, 945352, 945563,
   945773, 945983, 946192, 946401, 946609, 946818, 947025, 947233, 947440, 947646, 947852,
   948058, 948263, 948468, 948673, 948877, 949081, 949284, 949487, 949690, 949892, 950094,
   950295, 950496, 950696, 950897, 951096, 951296, 951495, 951693, 951892, 952089, 952287,
   952484, 952680, 952877, 953073, 953268, 953463, 953658, 953852, 954046, 954239, 954432,
   954625, 954817, 955009, 955200, 955391, 955582, 955772, 955962, 956151, 956340, 956529,
   956717, 956905, 957093, 957280, 957466, 957653, 957838, 958024, 958209, 958394, 958578,
   958762, 958945, 959128, 959311, 959493, 959675, 959856, 960037, 960218, 960398, 960578,
   960757, 960936, 961115, 961293, 961471, 961649, 961826, 962002, 962178, 962354, 962530,
   962705, 962879, 963054, 963227, 963401, 963574, 963746, 963919, 964090, 964262, 964433,
   964603, 964774, 964943, 965113, 965282, 965450, 965619, 965786, 965954, 966121, 966287,
   966453, 966619, 966784, 966949, 967114, 967278, 967442, 967605, 967768, 967931, 968093,
   968255, 968416, 968577, 968737, 968897, 969057, 969216, 969375, 969534, 969692, 969849,
   970007, 970164, 970320, 970476, 970632, 970787, 970942, 971096, 971250, 971404, 971557,
   971710, 971862, 972014, 972166, 972317, 972468, 972618, 972768, 972918, 973067, 973216,
   973364, 973512, 973660, 973807, 973953, 974100, 974246, 974391, 974536, 974681, 974825,
   974969, 975112, 975255, 975398, 975540, 975682, 975824, 975965, 976105, 976245, 976385,
   976525, 976664, 976802, 976940, 977078, 977215, 977352, 977489, 977625, 977761, 977896,
   978031, 978166, 978300, 978433, 978567, 978699, 978832, 978964, 979096, 979227, 979358,
   979488, 979618, 979748, 979877, 980005, 980134, 980262, 980389, 980516, 980643, 980770,
   980895, 981021, 981146, 981271, 981395, 981519, 981642, 981765, 981888, 982010, 982132,
   982253, 982374, 982495, 982615, 982735, 982854, 982973, 983092, 983210, 983327, 983445,
   983562, 983678, 983794, 983910, 984025, 984140, 984254, 984368, 984482, 984595, 984708,
   984820, 984932, 985044, 985155, 985266, 985376, 985486, 985595, 985704, 985813, 985921,
   986029, 986136, 986244, 986350, 986456, 986562, 986667, 986772, 986877, 986981, 987085,
   987188, 987291, 987393, 987496, 987597, 987698, 987799, 987900, 988000, 988099, 988198,
   988297, 988396, 988494, 988591, 988688, 988785, 988881, 988977, 989073, 989168, 989262,
   989356, 989450, 989544, 989637, 989729, 989821, 989913, 990005, 990095, 990186, 990276,
   990366, 990455, 990544, 990632, 990720, 990808, 990895, 990982, 991068, 991154, 991240,
   991325, 991410, 991494, 991578, 991661, 991744, 991827, 991909, 991991, 992073, 992154,
   992234, 992314, 992394, 992473, 992552, 992631, 992709, 992787, 992864, 992941, 993017,
   993093, 993169, 993244, 993319, 993393, 993467, 993541, 993614, 993686, 993759, 993831,
   993902, 993973, 994044, 994114, 994184, 994253, 994322, 994391, 994459, 994526, 994594,
   994661, 994727, 994793, 994859, 994924, 994989, 995053, 995117, 995181, 995244, 995307,
   995369, 995431, 995492, 995553, 995614, 995674, 995734, 995794, 995853, 995911, 995969,
   996027, 996084, 996141, 996198, 996254, 996310, 996365, 996420, 996474, 996528, 996582,
   996635, 996688, 996740, 996792, 996843, 996894, 996945, 996995, 997045, 997095, 997144,
   997192, 997240, 997288, 997336, 997383, 997429, 997475, 997521, 997566, 997611, 997655,
   997699, 997743, 997786, 997829, 997871, 997913, 997955, 997996, 998036, 998077, 998117,
   998156, 998195, 998234, 998272, 998310, 998347, 998384, 998420, 998456, 998492, 998527,
   998562, 998597, 998631, 998664, 998697, 998730, 998763, 998794, 998826, 998857, 998888,
   998918, 998948, 998977, 999006, 999035, 999063, 999091, 999118, 999145, 999172, 999198,
   999223, 999249, 999273, 999298, 999322, 999345, 999369, 999391, 999414, 999436, 999457,
   999478, 999499, 999519, 999539, 999558, 999577, 999596, 999614, 999632, 999649, 999666,
   999682, 999699, 999714, 999729, 999744, 999759, 999773, 999786, 999799, 999812, 999824,
   999836, 999848, 999859, 999870, 999880, 999890, 999899, 999908, 999916, 999925, 999932,
   999940, 999947, 999953, 999959, 999965, 999970, 999975, 999979, 999983, 999987, 999990,
   999992, 999995, 999997, 999998, 999999, 1000000, 1000000 >>
(* sin and cos of 2 pi k / n, in millionths *)
Sin6(n, k) == IF M1 % n = 0 THEN SinAt(T1, M1, (k % n) * (M1 \div n))
              ELSE SinAt(T2, M2, (k % n) * (M2 \div n))
Cos6(n, k) == IF M1 % n = 0 THEN SinAt(T1, M1, (k % n) * (M1 \div n) + M1 \div 4)
              ELSE SinAt(T2, M2, (k % n) * (M2 \div n) + M2 \div 4)
(* round(x / d) *)
RDiv(x, d) == IF x >= 0 THEN (x + d \div 2) \div d ELSE -((-x + d \div 2) \div d)
(* round(a * b / 10^6) for |a| up to 2 * 10^6 and |b| up to 10^6, without overflow *)
MulM(a, b) == LET x == RDiv(a, 1000)
                  y == a - 1000 * x
              IN RDiv(x * b + RDiv(y * b, 1000), 1000)
(* sin and cos of an angle of t millionths of a turn, by linear interpolation *)
SinMt(t) == LET u == (t % 1000000) * 63
                j == u \div 6250
                r == u % 6250
            IN SinAt(T1, M1, j) + RDiv((SinAt(T1, M1, j + 1) - SinAt(T1, M1, j)) * r, 6250)
CosMt(t) == SinMt((t % 1000000) + 250000)
ASSUME /\ T1[1] = 0 /\ T1[(M1 \div 4) + 1] = 1000000 /\ T1[(M1 \div 12) + 1] = 500000
       /\ \A k \in 0..(M1 \div 4) :
            Abs((SinAt(T1, M1, k) \div 100) * (SinAt(T1, M1, k) \div 100)
                + (SinAt(T1, M1, k + M1 \div 4) \div 100) * (SinAt(T1, M1, k + M1 \div 4) \div 100)
                - 100000000) <= 30000
       /\ \A k \in 1..(Len(T1) - 1) : T1[k + 1] >= T1[k]
       /\ \A k \in 1..(Len(T2) - 1) : T2[k + 1] >= T2[k]
=============================================================================

---- MODULE VgLnTab ----
(* round(100000 * ln n), n = 1..2048; written by tools/mklntab.py *)
LnTab == <<
0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906, 270805, 277259,
283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220, 336730, 340120, 343399, 346574,
349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120,
389182, 391202, 393183, 395124, 397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888,
417439, 418965, 420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203,
439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435,
457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850,
472739, 473620, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203,
485981, 486753, 487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981,
497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625, 506260, 506890, 507517,
508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580, 514166, 514749, 515329, 515906, 516479, 517048,
517615, 518178, 518739, 519296, 519850, 520401, 520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750,
526269, 526786, 527300, 527811, 528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754,
534233, 534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816, 540268, 540717, 541165,
541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532, 545959, 546383, 546806, 547227, 547646, 548064,
548480, 548894, 549306, 549717, 550126, 550533, 550939, 551343, 551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518,
554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350, 558725, 559099, 559471, 559842, 560212, 560580,
560947, 561313, 561677, 562040, 562402, 562762, 563121, 563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296,
566643, 566988, 567332, 567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373, 571703,
572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620, 574939, 575257, 575574, 575890, 576205, 576519, 576832,
577144, 577455, 577765, 578074, 578383, 578690, 578996, 579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711,
582008, 582305, 582600, 582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079, 586363,
586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440, 589715, 589990, 590263, 590536, 590808,
591080, 591350, 591620, 591889, 592158, 592426, 592693, 592959, 593225, 593489, 593754, 594017, 594280, 594542, 594803, 595064,
595324, 595584, 595842, 596101, 596358, 596615, 596871, 597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896, 599146,
599396, 599645, 599894, 600141, 600389, 600635, 600881, 601127, 601372, 601616, 601859, 602102, 602345, 602587, 602828, 603069,
603309, 603548, 603787, 604025, 604263, 604501, 604737, 604973, 605209, 605444, 605678, 605912, 606146, 606379, 606611, 606843,
607074, 607304, 607535, 607764, 607993, 608222, 608450, 608677, 608904, 609131, 609357, 609582, 609807, 610032, 610256, 610479,
610702, 610925, 611147, 611368, 611589, 611810, 612030, 612249, 612468, 612687, 612905, 613123, 613340, 613556, 613773, 613988,
614204, 614419, 614633, 614847, 615060, 615273, 615486, 615698, 615910, 616121, 616331, 616542, 616752, 616961, 617170, 617379,
617587, 617794, 618002, 618208, 618415, 618621, 618826, 619032, 619236, 619441, 619644, 619848, 620051, 620254, 620456, 620658,
620859, 621060, 621261, 621461, 621661, 621860, 622059, 622258, 622456, 622654, 622851, 623048, 623245, 623441, 623637, 623832,
624028, 624222, 624417, 624611, 624804, 624998, 625190, 625383, 625575, 625767, 625958, 626149, 626340, 626530, 626720, 626910,
627099, 627288, 627476, 627664, 627852, 628040, 628227, 628413, 628600, 628786, 628972, 629157, 629342, 629527, 629711, 629895,
630079, 630262, 630445, 630628, 630810, 630992, 631173, 631355, 631536, 631716, 631897, 632077, 632257, 632436, 632615, 632794,
632972, 633150, 633328, 633505, 633683, 633859, 634036, 634212, 634388, 634564, 634739, 634914, 635089, 635263, 635437, 635611,
635784, 635957, 636130, 636303, 636475, 636647, 636819, 636990, 637161, 637332, 637502, 637673, 637843, 638012, 638182, 638351,
638519, 638688, 638856, 639024, 639192, 639359, 639526, 639693, 639859, 640026, 640192, 640357, 640523, 640688, 640853, 641017,
641182, 641346, 641510, 641673, 641836, 641999, 642162, 642325, 642487, 642649, 642811, 642972, 643133, 643294, 643455, 643615,
643775, 643935, 644095, 644254, 644413, 644572, 644731, 644889, 645047, 645205, 645362, 645520, 645677, 645834, 645990, 646147,
646303, 646459, 646614, 646770, 646925, 647080, 647235, 647389, 647543, 647697, 647851, 648004, 648158, 648311, 648464, 648616,
648768, 648920, 649072, 649224, 649375, 649527, 649677, 649828, 649979, 650129, 650279, 650429, 650578, 650728, 650877, 651026,
651175, 651323, 651471, 651619, 651767, 651915, 652062, 652209, 652356, 652503, 652649, 652796, 652942, 653088, 653233, 653379,
653524, 653669, 653814, 653959, 654103, 654247, 654391, 654535, 654679, 654822, 654965, 655108, 655251, 655393, 655536, 655678,
655820, 655962, 656103, 656244, 656386, 656526, 656667, 656808, 656948, 657088, 657228, 657368, 657508, 657647, 657786, 657925,
658064, 658203, 658341, 658479, 658617, 658755, 658893, 659030, 659167, 659304, 659441, 659578, 659715, 659851, 659987, 660123,
660259, 660394, 660530, 660665, 660800, 660935, 661070, 661204, 661338, 661473, 661607, 661740, 661874, 662007, 662141, 662274,
662407, 662539, 662672, 662804, 662936, 663068, 663200, 663332, 663463, 663595, 663726, 663857, 663988, 664118, 664249, 664379,
664509, 664639, 664769, 664898, 665028, 665157, 665286, 665415, 665544, 665673, 665801, 665929, 666058, 666185, 666313, 666441,
666568, 666696, 666823, 666950, 667077, 667203, 667330, 667456, 667582, 667708, 667834, 667960, 668085, 668211, 668336, 668461,
668586, 668711, 668835, 668960, 669084, 669208, 669332, 669456, 669580, 669703, 669827, 669950, 670073, 670196, 670319, 670441,
670564, 670686, 670808, 670930, 671052, 671174, 671296, 671417, 671538, 671659, 671780, 671901, 672022, 672143, 672263, 672383,
672503, 672623, 672743, 672863, 672982, 673102, 673221, 673340, 673459, 673578, 673697, 673815, 673934, 674052, 674170, 674288,
674406, 674524, 674641, 674759, 674876, 674993, 675110, 675227, 675344, 675460, 675577, 675693, 675809, 675926, 676041, 676157,
676273, 676388, 676504, 676619, 676734, 676849, 676964, 677079, 677194, 677308, 677422, 677537, 677651, 677765, 677878, 677992,
678106, 678219, 678333, 678446, 678559, 678672, 678784, 678897, 679010, 679122, 679234, 679347, 679459, 679571, 679682, 679794,
679906, 680017, 680128, 680239, 680351, 680461, 680572, 680683, 680793, 680904, 681014, 681124, 681235, 681344, 681454, 681564,
681674, 681783, 681892, 682002, 682111, 682220, 682329, 682437, 682546, 682655, 682763, 682871, 682979, 683087, 683195, 683303,
683411, 683518, 683626, 683733, 683841, 683948, 684055, 684162, 684268, 684375, 684482, 684588, 684694, 684801, 684907, 685013,
685118, 685224, 685330, 685435, 685541, 685646, 685751, 685857, 685961, 686066, 686171, 686276, 686380, 686485, 686589, 686693,
686797, 686901, 687005, 687109, 687213, 687316, 687420, 687523, 687626, 687730, 687833, 687936, 688038, 688141, 688244, 688346,
688449, 688551, 688653, 688755, 688857, 688959, 689061, 689163, 689264, 689366, 689467, 689568, 689669, 689770, 689871, 689972,
690073, 690174, 690274, 690375, 690475, 690575, 690675, 690776, 690875, 690975, 691075, 691175, 691274, 691374, 691473, 691572,
691672, 691771, 691870, 691968, 692067, 692166, 692264, 692363, 692461, 692560, 692658, 692756, 692854, 692952, 693049, 693147,
693245, 693342, 693440, 693537, 693634, 693731, 693828, 693925, 694022, 694119, 694216, 694312, 694409, 694505, 694601, 694698,
694794, 694890, 694986, 695081, 695177, 695273, 695368, 695464, 695559, 695655, 695750, 695845, 695940, 696035, 696130, 696224,
696319, 696414, 696508, 696602, 696697, 696791, 696885, 696979, 697073, 697167, 697261, 697354, 697448, 697541, 697635, 697728,
697821, 697915, 698008, 698101, 698193, 698286, 698379, 698472, 698564, 698657, 698749, 698841, 698934, 699026, 699118, 699210,
699302, 699393, 699485, 699577, 699668, 699760, 699851, 699942, 700033, 700125, 700216, 700307, 700397, 700488, 700579, 700670,
700760, 700851, 700941, 701031, 701121, 701212, 701302, 701392, 701481, 701571, 701661, 701751, 701840, 701930, 702019, 702108,
702198, 702287, 702376, 702465, 702554, 702643, 702731, 702820, 702909, 702997, 703086, 703174, 703262, 703351, 703439, 703527,
703615, 703703, 703791, 703878, 703966, 704054, 704141, 704229, 704316, 704403, 704491, 704578, 704665, 704752, 704839, 704925,
705012, 705099, 705186, 705272, 705359, 705445, 705531, 705618, 705704, 705790, 705876, 705962, 706048, 706133, 706219, 706305,
706390, 706476, 706561, 706647, 706732, 706817, 706902, 706987, 707072, 707157, 707242, 707327, 707412, 707496, 707581, 707665,
707750, 707834, 707918, 708003, 708087, 708171, 708255, 708339, 708423, 708506, 708590, 708674, 708757, 708841, 708924, 709008,
709091, 709174, 709257, 709340, 709423, 709506, 709589, 709672, 709755, 709838, 709920, 710003, 710085, 710168, 710250, 710332,
710414, 710497, 710579, 710661, 710743, 710824, 710906, 710988, 711070, 711151, 711233, 711314, 711396, 711477, 711558, 711639,
711721, 711802, 711883, 711964, 712044, 712125, 712206, 712287, 712367, 712448, 712528, 712609, 712689, 712769, 712850, 712930,
713010, 713090, 713170, 713250, 713330, 713409, 713489, 713569, 713648, 713728, 713807, 713887, 713966, 714045, 714125, 714204,
714283, 714362, 714441, 714520, 714598, 714677, 714756, 714835, 714913, 714992, 715070, 715149, 715227, 715305, 715383, 715462,
715540, 715618, 715696, 715774, 715851, 715929, 716007, 716085, 716162, 716240, 716317, 716395, 716472, 716549, 716627, 716704,
716781, 716858, 716935, 717012, 717089, 717166, 717242, 717319, 717396, 717472, 717549, 717625, 717702, 717778, 717855, 717931,
718007, 718083, 718159, 718235, 718311, 718387, 718463, 718539, 718614, 718690, 718766, 718841, 718917, 718992, 719068, 719143,
719218, 719293, 719369, 719444, 719519, 719594, 719669, 719744, 719818, 719893, 719968, 720042, 720117, 720192, 720266, 720341,
720415, 720489, 720564, 720638, 720712, 720786, 720860, 720934, 721008, 721082, 721156, 721229, 721303, 721377, 721450, 721524,
721598, 721671, 721744, 721818, 721891, 721964, 722037, 722111, 722184, 722257, 722330, 722402, 722475, 722548, 722621, 722694,
722766, 722839, 722911, 722984, 723056, 723129, 723201, 723273, 723346, 723418, 723490, 723562, 723634, 723706, 723778, 723850,
723921, 723993, 724065, 724137, 724208, 724280, 724351, 724423, 724494, 724566, 724637, 724708, 724779, 724850, 724922, 724993,
725064, 725134, 725205, 725276, 725347, 725418, 725488, 725559, 725630, 725700, 725771, 725841, 725912, 725982, 726052, 726123,
726193, 726263, 726333, 726403, 726473, 726543, 726613, 726683, 726753, 726822, 726892, 726962, 727031, 727101, 727170, 727240,
727309, 727379, 727448, 727517, 727586, 727656, 727725, 727794, 727863, 727932, 728001, 728070, 728139, 728207, 728276, 728345,
728413, 728482, 728551, 728619, 728688, 728756, 728824, 728893, 728961, 729029, 729097, 729166, 729234, 729302, 729370, 729438,
729506, 729574, 729641, 729709, 729777, 729845, 729912, 729980, 730047, 730115, 730182, 730250, 730317, 730384, 730452, 730519,
730586, 730653, 730720, 730787, 730854, 730921, 730988, 731055, 731122, 731189, 731255, 731322, 731389, 731455, 731522, 731588,
731655, 731721, 731788, 731854, 731920, 731986, 732053, 732119, 732185, 732251, 732317, 732383, 732449, 732515, 732581, 732647,
732712, 732778, 732844, 732909, 732975, 733041, 733106, 733171, 733237, 733302, 733368, 733433, 733498, 733563, 733629, 733694,
733759, 733824, 733889, 733954, 734019, 734084, 734148, 734213, 734278, 734343, 734407, 734472, 734536, 734601, 734666, 734730,
734794, 734859, 734923, 734987, 735052, 735116, 735180, 735244, 735308, 735372, 735436, 735500, 735564, 735628, 735692, 735756,
735819, 735883, 735947, 736010, 736074, 736138, 736201, 736265, 736328, 736391, 736455, 736518, 736581, 736645, 736708, 736771,
736834, 736897, 736960, 737023, 737086, 737149, 737212, 737275, 737337, 737400, 737463, 737526, 737588, 737651, 737713, 737776,
737838, 737901, 737963, 738026, 738088, 738150, 738212, 738275, 738337, 738399, 738461, 738523, 738585, 738647, 738709, 738771,
738833, 738895, 738956, 739018, 739080, 739142, 739203, 739265, 739326, 739388, 739449, 739511, 739572, 739634, 739695, 739756,
739817, 739879, 739940, 740001, 740062, 740123, 740184, 740245, 740306, 740367, 740428, 740489, 740550, 740610, 740671, 740732,
740792, 740853, 740914, 740974, 741035, 741095, 741156, 741216, 741276, 741337, 741397, 741457, 741518, 741578, 741638, 741698,
741758, 741818, 741878, 741938, 741998, 742058, 742118, 742178, 742237, 742297, 742357, 742417, 742476, 742536, 742595, 742655,
742714, 742774, 742833, 742893, 742952, 743011, 743071, 743130, 743189, 743248, 743308, 743367, 743426, 743485, 743544, 743603,
743662, 743721, 743780, 743838, 743897, 743956, 744015, 744073, 744132, 744191, 744249, 744308, 744366, 744425, 744483, 744542,
744600, 744659, 744717, 744775, 744833, 744892, 744950, 745008, 745066, 745124, 745182, 745240, 745298, 745356, 745414, 745472,
745530, 745588, 745645, 745703, 745761, 745819, 745876, 745934, 745991, 746049, 746107, 746164, 746221, 746279, 746336, 746394,
746451, 746508, 746566, 746623, 746680, 746737, 746794, 746851, 746908, 746965, 747022, 747079, 747136, 747193, 747250, 747307,
747364, 747420, 747477, 747534, 747591, 747647, 747704, 747760, 747817, 747873, 747930, 747986, 748043, 748099, 748156, 748212,
748268, 748324, 748381, 748437, 748493, 748549, 748605, 748661, 748717, 748773, 748829, 748885, 748941, 748997, 749053, 749109,
749165, 749220, 749276, 749332, 749387, 749443, 749499, 749554, 749610, 749665, 749721, 749776, 749832, 749887, 749942, 749998,
750053, 750108, 750163, 750219, 750274, 750329, 750384, 750439, 750494, 750549, 750604, 750659, 750714, 750769, 750824, 750879,
750934, 750988, 751043, 751098, 751152, 751207, 751262, 751316, 751371, 751425, 751480, 751534, 751589, 751643, 751698, 751752,
751806, 751861, 751915, 751969, 752023, 752078, 752132, 752186, 752240, 752294, 752348, 752402, 752456, 752510, 752564, 752618,
752672, 752726, 752779, 752833, 752887, 752941, 752994, 753048, 753102, 753155, 753209, 753262, 753316, 753369, 753423, 753476,
753530, 753583, 753636, 753690, 753743, 753796, 753849, 753903, 753956, 754009, 754062, 754115, 754168, 754221, 754274, 754327,
754380, 754433, 754486, 754539, 754592, 754645, 754697, 754750, 754803, 754856, 754908, 754961, 755014, 755066, 755119, 755171,
755224, 755276, 755329, 755381, 755433, 755486, 755538, 755591, 755643, 755695, 755747, 755799, 755852, 755904, 755956, 756008,
756060, 756112, 756164, 756216, 756268, 756320, 756372, 756424, 756476, 756528, 756579, 756631, 756683, 756735, 756786, 756838,
756890, 756941, 756993, 757044, 757096, 757147, 757199, 757250, 757302, 757353, 757405, 757456, 757507, 757558, 757610, 757661,
757712, 757763, 757815, 757866, 757917, 757968, 758019, 758070, 758121, 758172, 758223, 758274, 758325, 758376, 758426, 758477,
758528, 758579, 758630, 758680, 758731, 758782, 758832, 758883, 758934, 758984, 759035, 759085, 759136, 759186, 759237, 759287,
759337, 759388, 759438, 759488, 759539, 759589, 759639, 759689, 759740, 759790, 759840, 759890, 759940, 759990, 760040, 760090,
760140, 760190, 760240, 760290, 760340, 760390, 760440, 760489, 760539, 760589, 760639, 760688, 760738, 760788, 760837, 760887,
760937, 760986, 761036, 761085, 761135, 761184, 761234, 761283, 761332, 761382, 761431, 761481, 761530, 761579, 761628, 761678,
761727, 761776, 761825, 761874, 761923, 761972, 762021, 762071, 762120, 762168, 762217, 762266, 762315, 762364, 762413, 762462>>
====

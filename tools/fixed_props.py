p('C21', 'ed4a892')
p('C19', '4981c65')
p('C12', '7bba3b6')
p('C18', '4938508 95b13b4')
p('C16', '0338cd1')
p('C13', 'd69522c')
p('C01', '5b26b9f 315b8ee')
p('C03', 'c5d5662 091b9a2')
p('C04', '9237cc6 1c49659')
p('C26', '4bf52b7 fdefa17')
p('C14', '3c91f75 1973cfd 408f738')
p('C15', '23ff5b5 94cdce3 3a3fdb0 1033175 667a5f0 996f507')
p('C23', '9efa3d2 5544edb 9877020 3686217 a1aa0bb')
p('C01', '4aaa990 4029c94')
p('C02', '0b6a7e0')
p('C03', '900924f af4a5bc 608b68d')
p('C24', '5b7bd3f ae7b596 53c8ed1 82e261d 2d5116e d00bc28 d794131 ced029c 0b60ee3')
p('C25', 'fd32b5e ce40903 1294c5e 0aa8720 56b1ef9 c387aad 3207f8e 1f01ca8 e759c3b f78afb6 2c13f94 28154a7 1598ff7 c32abd3')
p('C17', '7fd67fd')

"""Which property each repair belongs to: (first commit of a run of fixes, property)."""
START = [("8e883cc", "E02"), ("bde7175", "E03"), ("a399be2", "E04"), ("d4ae68d", "E08"), ("609ae01", "E03"), ("99a1336", "E04"),
         ("be32b75", "E01"), ("405881c", "E05"), ("205b133", "E06"), ("0287207", "E09"), ("001d23b", "E12"), ("e858c12", "E10"),
         ("9ca249b", "E07"), ("4bb4308", "E11"), ("ab4daff", "E13"), ("65093bb", "E14"), ("f14bb9e", "E15"), ("ac5bda0", "M01"),
         ("8bcd4ce", "M02"), ("384513d", "M03"), ("73290e3", "M04"), ("22c9246", "M05"), ("77595ff", "M06"), ("96cc305", "M07"),
         ("d364ef4", "P01"), ("0fde123", "P02"), ("d7c5131", "P03"), ("4599f17", "P04"), ("a4314aa", "P05"), ("63847c6", "P06"),
         ("67df976", "P07"), ("61cc218", "P08"), ("334fc79", "B01"), ("91175dd", "D01"), ("bac49a0", "C02"), ("4ea2ab1", "C01"),
         ("50a4242", "S03"), ("155a548", "S01"), ("2dd07fb", "S02"), ("35fd15b", "E17"), ("042734e", "E18"), ("13172d8", "E07"), ("5f9a03a", "E02"), ("174902c", "P05"), ("43904bf", "P01"), ("466d1a0", "P08"), ("2dbfbce", "E19"), ("b2c17a6", "P03"), ("edebd55", "E03")]

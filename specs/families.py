"""Puzzle types by property."""

TITLES = {
    "L01": "Loops guided by clues in cells",
    "L02": "Loops guided by rooms",
    "L03": "Bridges, pipes and paths",
    "N01": "Number placement by rows and columns",
    "N02": "Number placement by rooms and areas",
    "R01": "Divisions guided by clues",
    "R02": "Divisions into areas of given size or shape",
    "S01": "Shading with connected unshaded cells",
    "S02": "Shading with connected walls, seas and caves",
    "S03": "Shading in pieces and rooms",
    "S04": "Shading by counts",
    "V01": "Objects placed on the board",
    "V02": "Cells filled with two or more colours or letters",
}

MEMBERS = {
    "L01": "balance castle firefly geradeweg koburin masyu myopia nagare simpleloop slitherlink tapaloop yajilin".split(),
    "L02": "country detour dotchi doubleback haisu moonsun nothing onsen yajilin_regions".split(),
    "L03": "anglers hashi numlin pipelink railpool".split(),
    "N01": "bosanowa doppelblock easyasabc factors kakuro kakuru kazunori kropki minarism simplegako skyscrapers sudoku".split(),
    "N02": "cojun fillomino hanare meander nanro numrope putteria ripple sukoro sukororoom view".split(),
    "R01": "compass kramma nawabari shikaku squarejam tatamibari tentaisho triplace usotatami yajitatami".split(),
    "R02": "araf fivecells fourcells heteromino ncells pentominous tetrominous voxas".split(),
    "S01": "aqre aquapelago chocona heyablock heyawake hitori kurochute kurodoko mannequin martini nothree shimaguni tasquare usoone yajikazu".split(),
    "S02": "canal cave context coral creek dominion lightshadow mochikoro mochinyoro nuribou nurikabe nurimisaki nuriuzu paintarea tapa yinyang".split(),
    "S03": "cbanana cocktail hinge kurotto lits norinori norinuri patchwork snake stostone tetrochain".split(),
    "S04": "aquarium box circlesquare fillpix lookair nonogram tilepaint".split(),
    "V01": "akari battleship gokigen hakoiri magnets mines news nondango pentopia shakashaka starbattle statuepark tents".split(),
    "V02": "binairo fillmat juosan symmarea".split(),
}

FAMILY = {p: k for k, v in MEMBERS.items() for p in v}

class Minerva: pass

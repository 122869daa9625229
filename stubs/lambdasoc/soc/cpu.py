class CPUSoC: pass

static bool onHeader(Path& P, std::vector<Path>& work, std::vector<Exit>& exits)
{
    (void)work; (void)exits;
    int n = ++P.fr.visits[P.fr.bb];
    if (n > 20000) throw Giveup{"loop not bounded at " + locOf(&*P.fr.it)};
    return false;
}

{0, 0, 31, {140,161,121,80,85,12,80,223,173,229,145,136,221,200,62,110,161,106,77,173,219,15,67,99,87,205,16,224,55,232,149,255,112,245,118,76,201,25,38,68,}},
{0, 1, 31, {194,143,227,83,240,253,162,94,141,194,124,83,185,233,128,211,132,180,102,173,81,23,223,105,189,38,168,34,61,218,181,13,234,25,60,43,203,42,89,251,}},
{0, 2, 31, {107,145,57,124,68,29,65,5,185,47,116,133,230,34,102,53,205,43,55,51,74,196,194,118,98,101,98,15,206,203,15,97,62,80,168,208,104,178,238,58,}},
{0, 3, 31, {65,66,19,157,8,39,53,189,214,25,85,200,197,243,197,79,188,142,48,85,106,145,118,197,116,83,124,183,13,47,59,123,37,114,53,77,82,113,65,190,}},
{0, 0, 32, {241,177,213,176,168,80,209,2,176,11,248,185,116,232,117,63,204,108,228,169,174,191,222,154,185,221,252,113,106,185,249,218,63,53,71,76,156,36,57,128,}},
{0, 1, 32, {205,94,93,228,122,67,46,236,109,181,90,182,69,106,21,243,243,196,102,217,154,102,120,226,2,236,96,81,42,77,155,96,219,40,76,212,62,215,11,19,}},
{0, 2, 32, {194,33,250,62,37,56,222,247,116,179,152,136,171,29,242,125,191,128,3,225,119,151,201,204,43,114,109,221,173,116,4,106,92,229,42,76,71,1,170,47,}},
{0, 3, 32, {124,167,207,163,183,214,184,151,190,200,144,127,60,171,238,30,17,245,73,75,40,0,241,40,159,152,246,167,151,205,1,72,102,143,141,233,78,137,14,190,}},
{1, 0, 31, {134,204,241,90,227,140,183,209,195,60,123,216,178,87,4,9,68,49,243,228,197,12,246,29,123,147,185,4,187,87,223,103,101,246,186,148,156,119,162,191,}},
{1, 1, 31, {227,138,11,119,128,35,124,187,83,97,106,78,221,128,224,42,22,207,150,150,204,58,198,37,244,83,186,43,74,217,110,47,19,135,203,160,28,112,246,66,}},
{1, 2, 31, {74,214,119,161,198,130,185,77,48,10,239,84,95,160,176,145,118,158,238,61,163,225,145,31,69,94,221,122,212,134,6,192,225,35,233,107,60,212,194,6,}},
{1, 3, 31, {97,166,40,100,207,203,139,66,78,75,196,116,75,16,19,34,95,218,41,123,57,32,0,145,86,78,175,173,212,32,82,251,76,210,68,218,150,123,226,247,}},
{1, 0, 32, {68,61,174,246,244,196,166,191,12,90,140,88,167,84,151,61,124,126,223,37,160,127,11,102,155,158,160,250,110,206,33,202,131,152,128,136,208,115,104,237,}},
{1, 1, 32, {56,219,88,200,46,238,208,123,194,26,137,18,20,179,247,111,2,46,106,129,124,169,132,14,208,143,192,30,234,154,92,239,228,81,74,1,79,84,207,211,}},
{1, 2, 32, {62,35,20,139,121,194,87,240,88,158,241,51,239,155,197,105,230,26,106,30,20,172,20,176,60,142,107,62,247,128,200,37,182,114,153,126,232,142,124,186,}},
{1, 3, 32, {171,251,88,111,133,125,107,136,44,14,207,223,71,13,117,118,186,69,118,107,200,48,8,94,43,92,217,78,238,196,59,200,200,8,5,242,201,173,38,23,}},
{2, 0, 31, {64,185,187,184,105,172,100,243,214,164,98,229,201,40,8,192,35,17,85,36,214,61,91,52,220,122,16,23,138,228,245,227,222,230,215,126,193,44,206,8,196,73,81,246,75,192,71,6,58,153,}},
{2, 1, 31, {62,86,49,150,72,214,76,150,163,208,217,41,73,209,96,12,87,103,150,128,52,13,33,210,175,252,172,164,153,170,47,150,59,248,240,211,52,72,157,242,50,28,250,252,46,37,254,241,33,235,}},
{2, 2, 31, {2,186,209,68,40,39,155,54,22,182,72,34,106,253,12,249,1,221,103,100,49,244,137,123,33,169,53,121,84,111,67,164,204,165,82,226,251,157,200,76,23,230,13,51,58,187,136,82,111,98,}},
{2, 3, 31, {21,97,186,117,66,130,26,130,216,43,21,179,32,212,25,242,26,50,47,230,199,125,205,61,134,184,206,136,135,233,76,152,223,182,14,48,235,71,213,171,50,85,12,226,39,100,53,248,55,255,}},
{2, 0, 32, {246,93,208,154,159,201,192,101,156,103,128,88,169,210,155,233,80,104,204,74,123,174,241,141,74,149,242,123,38,103,204,4,215,117,58,22,81,213,49,133,101,82,217,160,192,117,199,33,168,53,}},
{2, 1, 32, {243,132,109,2,70,115,59,67,162,18,85,186,255,172,210,114,121,20,210,245,78,40,216,243,147,166,246,160,254,223,156,47,60,12,123,2,10,3,165,6,125,92,204,12,76,230,26,78,209,77,}},
{2, 2, 32, {69,112,43,192,171,39,48,170,118,35,176,242,192,50,235,111,222,158,77,209,163,218,96,61,243,144,152,204,102,118,87,128,53,13,188,133,58,181,21,222,20,99,138,120,164,25,117,251,45,53,}},
{2, 3, 32, {73,209,242,86,124,21,74,253,185,24,203,184,247,244,175,8,93,176,207,9,33,65,210,136,240,90,252,68,213,110,34,143,9,188,81,134,103,216,246,87,78,157,128,181,249,0,242,219,59,41,}},
{3, 0, 31, {102,213,51,233,31,120,70,70,172,107,199,5,4,244,185,50,175,6,86,60,91,229,4,153,41,3,116,243,237,139,233,64,161,44,220,118,205,145,241,194,50,131,149,148,35,85,253,141,244,220,}},
{3, 1, 31, {50,11,249,41,15,178,72,226,143,198,66,123,106,2,196,245,100,156,246,160,36,223,204,164,185,168,36,68,197,41,233,105,159,117,161,167,155,52,237,101,8,187,145,206,39,11,184,185,145,70,}},
{3, 2, 31, {182,203,87,165,234,114,121,57,139,100,104,68,91,157,2,5,242,111,252,10,12,246,38,198,40,0,41,70,176,230,219,248,187,192,52,12,57,117,214,42,191,201,102,191,204,149,208,191,93,74,}},
{3, 3, 31, {113,148,251,155,4,237,135,6,173,145,134,166,234,239,215,200,185,48,105,128,31,172,172,131,198,235,50,199,79,246,11,188,112,182,213,245,95,74,100,80,67,38,212,235,196,14,15,148,225,157,}},
{3, 0, 32, {153,143,59,238,212,243,246,61,134,32,80,244,130,91,118,190,6,100,87,226,218,184,124,73,145,71,11,174,186,149,188,3,115,35,218,94,35,143,58,174,93,36,211,162,98,115,71,216,152,125,}},
{3, 1, 32, {6,254,123,244,215,232,213,7,0,207,21,12,117,145,52,31,250,255,93,47,88,115,244,186,109,151,101,158,88,87,184,126,140,129,75,88,157,200,5,84,36,148,40,32,12,169,121,106,184,241,}},
{3, 2, 32, {27,123,2,166,57,84,157,130,187,162,31,156,134,162,30,240,130,29,134,96,38,245,83,90,173,254,153,126,182,180,238,238,64,7,191,227,108,226,31,116,119,41,208,148,249,195,158,62,33,152,}},
{3, 3, 32, {60,52,88,157,86,190,178,142,130,50,96,37,35,86,122,168,125,51,114,15,19,30,163,115,234,122,145,233,182,138,36,225,251,137,23,209,207,36,10,176,157,253,223,127,251,32,249,200,91,44,}},
{4, 4, 31, {185,48,165,165,175,227,31,45,51,97,35,39,94,72,79,107,210,25,245,99,42,187,41,21,81,115,142,227,90,228,20,20,252,47,12,219,23,157,91,92,}},
{4, 4, 32, {26,11,65,187,141,139,199,143,128,37,20,224,168,197,194,123,64,49,21,109,149,176,211,16,243,96,114,170,232,222,215,208,158,246,241,214,28,148,255,105,}},

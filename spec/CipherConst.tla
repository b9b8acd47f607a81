---------------------------- MODULE CipherConst ----------------------------
(* Generated by tools/cipherconsts.py from the definitions of the tables. *)
AesS == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71,
  240, 173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113,
  216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110,
  90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76,
  88, 207, 208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157,
  56, 245, 188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100,
  93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6,
  36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101,
  122, 174, 8, 186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102,
  72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135,
  233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
Mul2 == <<
  0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54,
  56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106,
  108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148,
  150, 152, 154, 156, 158, 160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190,
  192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232,
  234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254, 27, 25, 31, 29, 19, 17, 23, 21, 11, 9, 15, 13, 3, 1,
  7, 5, 59, 57, 63, 61, 51, 49, 55, 53, 43, 41, 47, 45, 35, 33, 39, 37, 91, 89, 95, 93, 83, 81, 87, 85, 75,
  73, 79, 77, 67, 65, 71, 69, 123, 121, 127, 125, 115, 113, 119, 117, 107, 105, 111, 109, 99, 97, 103, 101,
  155, 153, 159, 157, 147, 145, 151, 149, 139, 137, 143, 141, 131, 129, 135, 133, 187, 185, 191, 189, 179,
  177, 183, 181, 171, 169, 175, 173, 163, 161, 167, 165, 219, 217, 223, 221, 211, 209, 215, 213, 203, 201,
  207, 205, 195, 193, 199, 197, 251, 249, 255, 253, 243, 241, 247, 245, 235, 233, 239, 237, 227, 225, 231, 229>>
TwoQ0 == <<
  169, 103, 179, 232, 4, 253, 163, 118, 154, 146, 128, 120, 228, 221, 209, 56, 13, 198, 53, 152, 24, 247, 236,
  108, 67, 117, 55, 38, 250, 19, 148, 72, 242, 208, 139, 48, 132, 84, 223, 35, 25, 91, 61, 89, 243, 174, 162,
  130, 99, 1, 131, 46, 217, 81, 155, 124, 166, 235, 165, 190, 22, 12, 227, 97, 192, 140, 58, 245, 115, 44, 37,
  11, 187, 78, 137, 107, 83, 106, 180, 241, 225, 230, 189, 69, 226, 244, 182, 102, 204, 149, 3, 86, 212, 28,
  30, 215, 251, 195, 142, 181, 233, 207, 191, 186, 234, 119, 57, 175, 51, 201, 98, 113, 129, 121, 9, 173, 36,
  205, 249, 216, 229, 197, 185, 77, 68, 8, 134, 231, 161, 29, 170, 237, 6, 112, 178, 210, 65, 123, 160, 17,
  49, 194, 39, 144, 32, 246, 96, 255, 150, 92, 177, 171, 158, 156, 82, 27, 95, 147, 10, 239, 145, 133, 73,
  238, 45, 79, 143, 59, 71, 135, 109, 70, 214, 62, 105, 100, 42, 206, 203, 47, 252, 151, 5, 122, 172, 127,
  213, 26, 75, 14, 167, 90, 40, 20, 63, 41, 136, 60, 76, 2, 184, 218, 176, 23, 85, 31, 138, 125, 87, 199, 141,
  116, 183, 196, 159, 114, 126, 21, 34, 18, 88, 7, 153, 52, 110, 80, 222, 104, 101, 188, 219, 248, 200, 168,
  43, 64, 220, 254, 50, 164, 202, 16, 33, 240, 211, 93, 15, 0, 111, 157, 54, 66, 74, 94, 193, 224>>
TwoQ1 == <<
  117, 243, 198, 244, 219, 123, 251, 200, 74, 211, 230, 107, 69, 125, 232, 75, 214, 50, 216, 253, 55, 113,
  241, 225, 48, 15, 248, 27, 135, 250, 6, 63, 94, 186, 174, 91, 138, 0, 188, 157, 109, 193, 177, 14, 128, 93,
  210, 213, 160, 132, 7, 20, 181, 144, 44, 163, 178, 115, 76, 84, 146, 116, 54, 81, 56, 176, 189, 90, 252, 96,
  98, 150, 108, 66, 247, 16, 124, 40, 39, 140, 19, 149, 156, 199, 36, 70, 59, 112, 202, 227, 133, 203, 17,
  208, 147, 184, 166, 131, 32, 255, 159, 119, 195, 204, 3, 111, 8, 191, 64, 231, 43, 226, 121, 12, 170, 130,
  65, 58, 234, 185, 228, 154, 164, 151, 126, 218, 122, 23, 102, 148, 161, 29, 61, 240, 222, 179, 11, 114, 167,
  28, 239, 209, 83, 62, 143, 51, 38, 95, 236, 118, 42, 73, 129, 136, 238, 33, 196, 26, 235, 217, 197, 57, 153,
  205, 173, 49, 139, 1, 24, 35, 221, 31, 78, 45, 249, 72, 79, 242, 101, 142, 120, 92, 88, 25, 141, 229, 152,
  87, 103, 127, 5, 100, 175, 99, 182, 254, 245, 183, 60, 165, 206, 233, 104, 68, 224, 77, 67, 105, 41, 46,
  172, 21, 89, 168, 10, 158, 110, 71, 223, 52, 53, 106, 207, 220, 34, 201, 192, 155, 137, 212, 237, 171, 18,
  162, 13, 82, 187, 2, 47, 169, 215, 97, 30, 180, 80, 4, 246, 194, 22, 37, 134, 86, 85, 9, 190, 145>>
Mul5B == <<
  0, 91, 182, 237, 5, 94, 179, 232, 10, 81, 188, 231, 15, 84, 185, 226, 20, 79, 162, 249, 17, 74, 167, 252,
  30, 69, 168, 243, 27, 64, 173, 246, 40, 115, 158, 197, 45, 118, 155, 192, 34, 121, 148, 207, 39, 124, 145,
  202, 60, 103, 138, 209, 57, 98, 143, 212, 54, 109, 128, 219, 51, 104, 133, 222, 80, 11, 230, 189, 85, 14,
  227, 184, 90, 1, 236, 183, 95, 4, 233, 178, 68, 31, 242, 169, 65, 26, 247, 172, 78, 21, 248, 163, 75, 16,
  253, 166, 120, 35, 206, 149, 125, 38, 203, 144, 114, 41, 196, 159, 119, 44, 193, 154, 108, 55, 218, 129,
  105, 50, 223, 132, 102, 61, 208, 139, 99, 56, 213, 142, 160, 251, 22, 77, 165, 254, 19, 72, 170, 241, 28,
  71, 175, 244, 25, 66, 180, 239, 2, 89, 177, 234, 7, 92, 190, 229, 8, 83, 187, 224, 13, 86, 136, 211, 62,
  101, 141, 214, 59, 96, 130, 217, 52, 111, 135, 220, 49, 106, 156, 199, 42, 113, 153, 194, 47, 116, 150, 205,
  32, 123, 147, 200, 37, 126, 240, 171, 70, 29, 245, 174, 67, 24, 250, 161, 76, 23, 255, 164, 73, 18, 228,
  191, 82, 9, 225, 186, 87, 12, 238, 181, 88, 3, 235, 176, 93, 6, 216, 131, 110, 53, 221, 134, 107, 48, 210,
  137, 100, 63, 215, 140, 97, 58, 204, 151, 122, 33, 201, 146, 127, 36, 198, 157, 112, 43, 195, 152, 117, 46>>
MulEF == <<
  0, 239, 183, 88, 7, 232, 176, 95, 14, 225, 185, 86, 9, 230, 190, 81, 28, 243, 171, 68, 27, 244, 172, 67, 18,
  253, 165, 74, 21, 250, 162, 77, 56, 215, 143, 96, 63, 208, 136, 103, 54, 217, 129, 110, 49, 222, 134, 105,
  36, 203, 147, 124, 35, 204, 148, 123, 42, 197, 157, 114, 45, 194, 154, 117, 112, 159, 199, 40, 119, 152,
  192, 47, 126, 145, 201, 38, 121, 150, 206, 33, 108, 131, 219, 52, 107, 132, 220, 51, 98, 141, 213, 58, 101,
  138, 210, 61, 72, 167, 255, 16, 79, 160, 248, 23, 70, 169, 241, 30, 65, 174, 246, 25, 84, 187, 227, 12, 83,
  188, 228, 11, 90, 181, 237, 2, 93, 178, 234, 5, 224, 15, 87, 184, 231, 8, 80, 191, 238, 1, 89, 182, 233, 6,
  94, 177, 252, 19, 75, 164, 251, 20, 76, 163, 242, 29, 69, 170, 245, 26, 66, 173, 216, 55, 111, 128, 223, 48,
  104, 135, 214, 57, 97, 142, 209, 62, 102, 137, 196, 43, 115, 156, 195, 44, 116, 155, 202, 37, 125, 146, 205,
  34, 122, 149, 144, 127, 39, 200, 151, 120, 32, 207, 158, 113, 41, 198, 153, 118, 46, 193, 140, 99, 59, 212,
  139, 100, 60, 211, 130, 109, 53, 218, 133, 106, 50, 221, 168, 71, 31, 240, 175, 64, 24, 247, 166, 73, 17,
  254, 161, 78, 22, 249, 180, 91, 3, 236, 179, 92, 4, 235, 186, 85, 13, 226, 189, 82, 10, 229>>
RsMul == <<

  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>,
  <<0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158, 160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190, 192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254, 77, 79, 73, 75, 69, 71, 65, 67, 93, 95, 89, 91, 85, 87, 81, 83, 109, 111, 105, 107, 101, 103, 97, 99, 125, 127, 121, 123, 117, 119, 113, 115, 13, 15, 9, 11, 5, 7, 1, 3, 29, 31, 25, 27, 21, 23, 17, 19, 45, 47, 41, 43, 37, 39, 33, 35, 61, 63, 57, 59, 53, 55, 49, 51, 205, 207, 201, 203, 197, 199, 193, 195, 221, 223, 217, 219, 213, 215, 209, 211, 237, 239, 233, 235, 229, 231, 225, 227, 253, 255, 249, 251, 245, 247, 241, 243, 141, 143, 137, 139, 133, 135, 129, 131, 157, 159, 153, 155, 149, 151, 145, 147, 173, 175, 169, 171, 165, 167, 161, 163, 189, 191, 185, 187, 181, 183, 177, 179>>,
  <<0, 3, 6, 5, 12, 15, 10, 9, 24, 27, 30, 29, 20, 23, 18, 17, 48, 51, 54, 53, 60, 63, 58, 57, 40, 43, 46, 45, 36, 39, 34, 33, 96, 99, 102, 101, 108, 111, 106, 105, 120, 123, 126, 125, 116, 119, 114, 113, 80, 83, 86, 85, 92, 95, 90, 89, 72, 75, 78, 77, 68, 71, 66, 65, 192, 195, 198, 197, 204, 207, 202, 201, 216, 219, 222, 221, 212, 215, 210, 209, 240, 243, 246, 245, 252, 255, 250, 249, 232, 235, 238, 237, 228, 231, 226, 225, 160, 163, 166, 165, 172, 175, 170, 169, 184, 187, 190, 189, 180, 183, 178, 177, 144, 147, 150, 149, 156, 159, 154, 153, 136, 139, 142, 141, 132, 135, 130, 129, 205, 206, 203, 200, 193, 194, 199, 196, 213, 214, 211, 208, 217, 218, 223, 220, 253, 254, 251, 248, 241, 242, 247, 244, 229, 230, 227, 224, 233, 234, 239, 236, 173, 174, 171, 168, 161, 162, 167, 164, 181, 182, 179, 176, 185, 186, 191, 188, 157, 158, 155, 152, 145, 146, 151, 148, 133, 134, 131, 128, 137, 138, 143, 140, 13, 14, 11, 8, 1, 2, 7, 4, 21, 22, 19, 16, 25, 26, 31, 28, 61, 62, 59, 56, 49, 50, 55, 52, 37, 38, 35, 32, 41, 42, 47, 44, 109, 110, 107, 104, 97, 98, 103, 100, 117, 118, 115, 112, 121, 122, 127, 124, 93, 94, 91, 88, 81, 82, 87, 84, 69, 70, 67, 64, 73, 74, 79, 76>>,
  <<0, 25, 50, 43, 100, 125, 86, 79, 200, 209, 250, 227, 172, 181, 158, 135, 221, 196, 239, 246, 185, 160, 139, 146, 21, 12, 39, 62, 113, 104, 67, 90, 247, 238, 197, 220, 147, 138, 161, 184, 63, 38, 13, 20, 91, 66, 105, 112, 42, 51, 24, 1, 78, 87, 124, 101, 226, 251, 208, 201, 134, 159, 180, 173, 163, 186, 145, 136, 199, 222, 245, 236, 107, 114, 89, 64, 15, 22, 61, 36, 126, 103, 76, 85, 26, 3, 40, 49, 182, 175, 132, 157, 210, 203, 224, 249, 84, 77, 102, 127, 48, 41, 2, 27, 156, 133, 174, 183, 248, 225, 202, 211, 137, 144, 187, 162, 237, 244, 223, 198, 65, 88, 115, 106, 37, 60, 23, 14, 11, 18, 57, 32, 111, 118, 93, 68, 195, 218, 241, 232, 167, 190, 149, 140, 214, 207, 228, 253, 178, 171, 128, 153, 30, 7, 44, 53, 122, 99, 72, 81, 252, 229, 206, 215, 152, 129, 170, 179, 52, 45, 6, 31, 80, 73, 98, 123, 33, 56, 19, 10, 69, 92, 119, 110, 233, 240, 219, 194, 141, 148, 191, 166, 168, 177, 154, 131, 204, 213, 254, 231, 96, 121, 82, 75, 4, 29, 54, 47, 117, 108, 71, 94, 17, 8, 35, 58, 189, 164, 143, 150, 217, 192, 235, 242, 95, 70, 109, 116, 59, 34, 9, 16, 151, 142, 165, 188, 243, 234, 193, 216, 130, 155, 176, 169, 230, 255, 212, 205, 74, 83, 120, 97, 46, 55, 28, 5>>,
  <<0, 30, 60, 34, 120, 102, 68, 90, 240, 238, 204, 210, 136, 150, 180, 170, 173, 179, 145, 143, 213, 203, 233, 247, 93, 67, 97, 127, 37, 59, 25, 7, 23, 9, 43, 53, 111, 113, 83, 77, 231, 249, 219, 197, 159, 129, 163, 189, 186, 164, 134, 152, 194, 220, 254, 224, 74, 84, 118, 104, 50, 44, 14, 16, 46, 48, 18, 12, 86, 72, 106, 116, 222, 192, 226, 252, 166, 184, 154, 132, 131, 157, 191, 161, 251, 229, 199, 217, 115, 109, 79, 81, 11, 21, 55, 41, 57, 39, 5, 27, 65, 95, 125, 99, 201, 215, 245, 235, 177, 175, 141, 147, 148, 138, 168, 182, 236, 242, 208, 206, 100, 122, 88, 70, 28, 2, 32, 62, 92, 66, 96, 126, 36, 58, 24, 6, 172, 178, 144, 142, 212, 202, 232, 246, 241, 239, 205, 211, 137, 151, 181, 171, 1, 31, 61, 35, 121, 103, 69, 91, 75, 85, 119, 105, 51, 45, 15, 17, 187, 165, 135, 153, 195, 221, 255, 225, 230, 248, 218, 196, 158, 128, 162, 188, 22, 8, 42, 52, 110, 112, 82, 76, 114, 108, 78, 80, 10, 20, 54, 40, 130, 156, 190, 160, 250, 228, 198, 216, 223, 193, 227, 253, 167, 185, 155, 133, 47, 49, 19, 13, 87, 73, 107, 117, 101, 123, 89, 71, 29, 3, 33, 63, 149, 139, 169, 183, 237, 243, 209, 207, 200, 214, 244, 234, 176, 174, 140, 146, 56, 38, 4, 26, 64, 94, 124, 98>>,
  <<0, 61, 122, 71, 244, 201, 142, 179, 165, 152, 223, 226, 81, 108, 43, 22, 7, 58, 125, 64, 243, 206, 137, 180, 162, 159, 216, 229, 86, 107, 44, 17, 14, 51, 116, 73, 250, 199, 128, 189, 171, 150, 209, 236, 95, 98, 37, 24, 9, 52, 115, 78, 253, 192, 135, 186, 172, 145, 214, 235, 88, 101, 34, 31, 28, 33, 102, 91, 232, 213, 146, 175, 185, 132, 195, 254, 77, 112, 55, 10, 27, 38, 97, 92, 239, 210, 149, 168, 190, 131, 196, 249, 74, 119, 48, 13, 18, 47, 104, 85, 230, 219, 156, 161, 183, 138, 205, 240, 67, 126, 57, 4, 21, 40, 111, 82, 225, 220, 155, 166, 176, 141, 202, 247, 68, 121, 62, 3, 56, 5, 66, 127, 204, 241, 182, 139, 157, 160, 231, 218, 105, 84, 19, 46, 63, 2, 69, 120, 203, 246, 177, 140, 154, 167, 224, 221, 110, 83, 20, 41, 54, 11, 76, 113, 194, 255, 184, 133, 147, 174, 233, 212, 103, 90, 29, 32, 49, 12, 75, 118, 197, 248, 191, 130, 148, 169, 238, 211, 96, 93, 26, 39, 36, 25, 94, 99, 208, 237, 170, 151, 129, 188, 251, 198, 117, 72, 15, 50, 35, 30, 89, 100, 215, 234, 173, 144, 134, 187, 252, 193, 114, 79, 8, 53, 42, 23, 80, 109, 222, 227, 164, 153, 143, 178, 245, 200, 123, 70, 1, 60, 45, 16, 87, 106, 217, 228, 163, 158, 136, 181, 242, 207, 124, 65, 6, 59>>,
  <<0, 71, 142, 201, 81, 22, 223, 152, 162, 229, 44, 107, 243, 180, 125, 58, 9, 78, 135, 192, 88, 31, 214, 145, 171, 236, 37, 98, 250, 189, 116, 51, 18, 85, 156, 219, 67, 4, 205, 138, 176, 247, 62, 121, 225, 166, 111, 40, 27, 92, 149, 210, 74, 13, 196, 131, 185, 254, 55, 112, 232, 175, 102, 33, 36, 99, 170, 237, 117, 50, 251, 188, 134, 193, 8, 79, 215, 144, 89, 30, 45, 106, 163, 228, 124, 59, 242, 181, 143, 200, 1, 70, 222, 153, 80, 23, 54, 113, 184, 255, 103, 32, 233, 174, 148, 211, 26, 93, 197, 130, 75, 12, 63, 120, 177, 246, 110, 41, 224, 167, 157, 218, 19, 84, 204, 139, 66, 5, 72, 15, 198, 129, 25, 94, 151, 208, 234, 173, 100, 35, 187, 252, 53, 114, 65, 6, 207, 136, 16, 87, 158, 217, 227, 164, 109, 42, 178, 245, 60, 123, 90, 29, 212, 147, 11, 76, 133, 194, 248, 191, 118, 49, 169, 238, 39, 96, 83, 20, 221, 154, 2, 69, 140, 203, 241, 182, 127, 56, 160, 231, 46, 105, 108, 43, 226, 165, 61, 122, 179, 244, 206, 137, 64, 7, 159, 216, 17, 86, 101, 34, 235, 172, 52, 115, 186, 253, 199, 128, 73, 14, 150, 209, 24, 95, 126, 57, 240, 183, 47, 104, 161, 230, 220, 155, 82, 21, 141, 202, 3, 68, 119, 48, 249, 190, 38, 97, 168, 239, 213, 146, 91, 28, 132, 195, 10, 77>>,
  <<0, 85, 170, 255, 25, 76, 179, 230, 50, 103, 152, 205, 43, 126, 129, 212, 100, 49, 206, 155, 125, 40, 215, 130, 86, 3, 252, 169, 79, 26, 229, 176, 200, 157, 98, 55, 209, 132, 123, 46, 250, 175, 80, 5, 227, 182, 73, 28, 172, 249, 6, 83, 181, 224, 31, 74, 158, 203, 52, 97, 135, 210, 45, 120, 221, 136, 119, 34, 196, 145, 110, 59, 239, 186, 69, 16, 246, 163, 92, 9, 185, 236, 19, 70, 160, 245, 10, 95, 139, 222, 33, 116, 146, 199, 56, 109, 21, 64, 191, 234, 12, 89, 166, 243, 39, 114, 141, 216, 62, 107, 148, 193, 113, 36, 219, 142, 104, 61, 194, 151, 67, 22, 233, 188, 90, 15, 240, 165, 247, 162, 93, 8, 238, 187, 68, 17, 197, 144, 111, 58, 220, 137, 118, 35, 147, 198, 57, 108, 138, 223, 32, 117, 161, 244, 11, 94, 184, 237, 18, 71, 63, 106, 149, 192, 38, 115, 140, 217, 13, 88, 167, 242, 20, 65, 190, 235, 91, 14, 241, 164, 66, 23, 232, 189, 105, 60, 195, 150, 112, 37, 218, 143, 42, 127, 128, 213, 51, 102, 153, 204, 24, 77, 178, 231, 1, 84, 171, 254, 78, 27, 228, 177, 87, 2, 253, 168, 124, 41, 214, 131, 101, 48, 207, 154, 226, 183, 72, 29, 251, 174, 81, 4, 208, 133, 122, 47, 201, 156, 99, 54, 134, 211, 44, 121, 159, 202, 53, 96, 180, 225, 30, 75, 173, 248, 7, 82>>,
  <<0, 86, 172, 250, 21, 67, 185, 239, 42, 124, 134, 208, 63, 105, 147, 197, 84, 2, 248, 174, 65, 23, 237, 187, 126, 40, 210, 132, 107, 61, 199, 145, 168, 254, 4, 82, 189, 235, 17, 71, 130, 212, 46, 120, 151, 193, 59, 109, 252, 170, 80, 6, 233, 191, 69, 19, 214, 128, 122, 44, 195, 149, 111, 57, 29, 75, 177, 231, 8, 94, 164, 242, 55, 97, 155, 205, 34, 116, 142, 216, 73, 31, 229, 179, 92, 10, 240, 166, 99, 53, 207, 153, 118, 32, 218, 140, 181, 227, 25, 79, 160, 246, 12, 90, 159, 201, 51, 101, 138, 220, 38, 112, 225, 183, 77, 27, 244, 162, 88, 14, 203, 157, 103, 49, 222, 136, 114, 36, 58, 108, 150, 192, 47, 121, 131, 213, 16, 70, 188, 234, 5, 83, 169, 255, 110, 56, 194, 148, 123, 45, 215, 129, 68, 18, 232, 190, 81, 7, 253, 171, 146, 196, 62, 104, 135, 209, 43, 125, 184, 238, 20, 66, 173, 251, 1, 87, 198, 144, 106, 60, 211, 133, 127, 41, 236, 186, 64, 22, 249, 175, 85, 3, 39, 113, 139, 221, 50, 100, 158, 200, 13, 91, 161, 247, 24, 78, 180, 226, 115, 37, 223, 137, 102, 48, 202, 156, 89, 15, 245, 163, 76, 26, 224, 182, 143, 217, 35, 117, 154, 204, 54, 96, 165, 243, 9, 95, 176, 230, 28, 74, 219, 141, 119, 33, 206, 152, 98, 52, 241, 167, 93, 11, 228, 178, 72, 30>>,
  <<0, 88, 176, 232, 45, 117, 157, 197, 90, 2, 234, 178, 119, 47, 199, 159, 180, 236, 4, 92, 153, 193, 41, 113, 238, 182, 94, 6, 195, 155, 115, 43, 37, 125, 149, 205, 8, 80, 184, 224, 127, 39, 207, 151, 82, 10, 226, 186, 145, 201, 33, 121, 188, 228, 12, 84, 203, 147, 123, 35, 230, 190, 86, 14, 74, 18, 250, 162, 103, 63, 215, 143, 16, 72, 160, 248, 61, 101, 141, 213, 254, 166, 78, 22, 211, 139, 99, 59, 164, 252, 20, 76, 137, 209, 57, 97, 111, 55, 223, 135, 66, 26, 242, 170, 53, 109, 133, 221, 24, 64, 168, 240, 219, 131, 107, 51, 246, 174, 70, 30, 129, 217, 49, 105, 172, 244, 28, 68, 148, 204, 36, 124, 185, 225, 9, 81, 206, 150, 126, 38, 227, 187, 83, 11, 32, 120, 144, 200, 13, 85, 189, 229, 122, 34, 202, 146, 87, 15, 231, 191, 177, 233, 1, 89, 156, 196, 44, 116, 235, 179, 91, 3, 198, 158, 118, 46, 5, 93, 181, 237, 40, 112, 152, 192, 95, 7, 239, 183, 114, 42, 194, 154, 222, 134, 110, 54, 243, 171, 67, 27, 132, 220, 52, 108, 169, 241, 25, 65, 106, 50, 218, 130, 71, 31, 247, 175, 48, 104, 128, 216, 29, 69, 173, 245, 251, 163, 75, 19, 214, 142, 102, 62, 161, 249, 17, 73, 140, 212, 60, 100, 79, 23, 255, 167, 98, 58, 210, 138, 21, 77, 165, 253, 56, 96, 136, 208>>,
  <<0, 90, 180, 238, 37, 127, 145, 203, 74, 16, 254, 164, 111, 53, 219, 129, 148, 206, 32, 122, 177, 235, 5, 95, 222, 132, 106, 48, 251, 161, 79, 21, 101, 63, 209, 139, 64, 26, 244, 174, 47, 117, 155, 193, 10, 80, 190, 228, 241, 171, 69, 31, 212, 142, 96, 58, 187, 225, 15, 85, 158, 196, 42, 112, 202, 144, 126, 36, 239, 181, 91, 1, 128, 218, 52, 110, 165, 255, 17, 75, 94, 4, 234, 176, 123, 33, 207, 149, 20, 78, 160, 250, 49, 107, 133, 223, 175, 245, 27, 65, 138, 208, 62, 100, 229, 191, 81, 11, 192, 154, 116, 46, 59, 97, 143, 213, 30, 68, 170, 240, 113, 43, 197, 159, 84, 14, 224, 186, 217, 131, 109, 55, 252, 166, 72, 18, 147, 201, 39, 125, 182, 236, 2, 88, 77, 23, 249, 163, 104, 50, 220, 134, 7, 93, 179, 233, 34, 120, 150, 204, 188, 230, 8, 82, 153, 195, 45, 119, 246, 172, 66, 24, 211, 137, 103, 61, 40, 114, 156, 198, 13, 87, 185, 227, 98, 56, 214, 140, 71, 29, 243, 169, 19, 73, 167, 253, 54, 108, 130, 216, 89, 3, 237, 183, 124, 38, 200, 146, 135, 221, 51, 105, 162, 248, 22, 76, 205, 151, 121, 35, 232, 178, 92, 6, 118, 44, 194, 152, 83, 9, 231, 189, 60, 102, 136, 210, 25, 67, 173, 247, 226, 184, 86, 12, 199, 157, 115, 41, 168, 242, 28, 70, 141, 215, 57, 99>>,
  <<0, 104, 208, 184, 237, 133, 61, 85, 151, 255, 71, 47, 122, 18, 170, 194, 99, 11, 179, 219, 142, 230, 94, 54, 244, 156, 36, 76, 25, 113, 201, 161, 198, 174, 22, 126, 43, 67, 251, 147, 81, 57, 129, 233, 188, 212, 108, 4, 165, 205, 117, 29, 72, 32, 152, 240, 50, 90, 226, 138, 223, 183, 15, 103, 193, 169, 17, 121, 44, 68, 252, 148, 86, 62, 134, 238, 187, 211, 107, 3, 162, 202, 114, 26, 79, 39, 159, 247, 53, 93, 229, 141, 216, 176, 8, 96, 7, 111, 215, 191, 234, 130, 58, 82, 144, 248, 64, 40, 125, 21, 173, 197, 100, 12, 180, 220, 137, 225, 89, 49, 243, 155, 35, 75, 30, 118, 206, 166, 207, 167, 31, 119, 34, 74, 242, 154, 88, 48, 136, 224, 181, 221, 101, 13, 172, 196, 124, 20, 65, 41, 145, 249, 59, 83, 235, 131, 214, 190, 6, 110, 9, 97, 217, 177, 228, 140, 52, 92, 158, 246, 78, 38, 115, 27, 163, 203, 106, 2, 186, 210, 135, 239, 87, 63, 253, 149, 45, 69, 16, 120, 192, 168, 14, 102, 222, 182, 227, 139, 51, 91, 153, 241, 73, 33, 116, 28, 164, 204, 109, 5, 189, 213, 128, 232, 80, 56, 250, 146, 42, 66, 23, 127, 199, 175, 200, 160, 24, 112, 37, 77, 245, 157, 95, 55, 143, 231, 178, 218, 98, 10, 171, 195, 123, 19, 70, 46, 150, 254, 60, 84, 236, 132, 209, 185, 1, 105>>,
  <<0, 130, 73, 203, 146, 16, 219, 89, 105, 235, 32, 162, 251, 121, 178, 48, 210, 80, 155, 25, 64, 194, 9, 139, 187, 57, 242, 112, 41, 171, 96, 226, 233, 107, 160, 34, 123, 249, 50, 176, 128, 2, 201, 75, 18, 144, 91, 217, 59, 185, 114, 240, 169, 43, 224, 98, 82, 208, 27, 153, 192, 66, 137, 11, 159, 29, 214, 84, 13, 143, 68, 198, 246, 116, 191, 61, 100, 230, 45, 175, 77, 207, 4, 134, 223, 93, 150, 20, 36, 166, 109, 239, 182, 52, 255, 125, 118, 244, 63, 189, 228, 102, 173, 47, 31, 157, 86, 212, 141, 15, 196, 70, 164, 38, 237, 111, 54, 180, 127, 253, 205, 79, 132, 6, 95, 221, 22, 148, 115, 241, 58, 184, 225, 99, 168, 42, 26, 152, 83, 209, 136, 10, 193, 67, 161, 35, 232, 106, 51, 177, 122, 248, 200, 74, 129, 3, 90, 216, 19, 145, 154, 24, 211, 81, 8, 138, 65, 195, 243, 113, 186, 56, 97, 227, 40, 170, 72, 202, 1, 131, 218, 88, 147, 17, 33, 163, 104, 234, 179, 49, 250, 120, 236, 110, 165, 39, 126, 252, 55, 181, 133, 7, 204, 78, 23, 149, 94, 220, 62, 188, 119, 245, 172, 46, 229, 103, 87, 213, 30, 156, 197, 71, 140, 14, 5, 135, 76, 206, 151, 21, 222, 92, 108, 238, 37, 167, 254, 124, 183, 53, 215, 85, 158, 28, 69, 199, 12, 142, 190, 60, 247, 117, 44, 174, 101, 231>>,
  <<0, 135, 67, 196, 134, 1, 197, 66, 65, 198, 2, 133, 199, 64, 132, 3, 130, 5, 193, 70, 4, 131, 71, 192, 195, 68, 128, 7, 69, 194, 6, 129, 73, 206, 10, 141, 207, 72, 140, 11, 8, 143, 75, 204, 142, 9, 205, 74, 203, 76, 136, 15, 77, 202, 14, 137, 138, 13, 201, 78, 12, 139, 79, 200, 146, 21, 209, 86, 20, 147, 87, 208, 211, 84, 144, 23, 85, 210, 22, 145, 16, 151, 83, 212, 150, 17, 213, 82, 81, 214, 18, 149, 215, 80, 148, 19, 219, 92, 152, 31, 93, 218, 30, 153, 154, 29, 217, 94, 28, 155, 95, 216, 89, 222, 26, 157, 223, 88, 156, 27, 24, 159, 91, 220, 158, 25, 221, 90, 105, 238, 42, 173, 239, 104, 172, 43, 40, 175, 107, 236, 174, 41, 237, 106, 235, 108, 168, 47, 109, 234, 46, 169, 170, 45, 233, 110, 44, 171, 111, 232, 32, 167, 99, 228, 166, 33, 229, 98, 97, 230, 34, 165, 231, 96, 164, 35, 162, 37, 225, 102, 36, 163, 103, 224, 227, 100, 160, 39, 101, 226, 38, 161, 251, 124, 184, 63, 125, 250, 62, 185, 186, 61, 249, 126, 60, 187, 127, 248, 121, 254, 58, 189, 255, 120, 188, 59, 56, 191, 123, 252, 190, 57, 253, 122, 178, 53, 241, 118, 52, 179, 119, 240, 243, 116, 176, 55, 117, 242, 54, 177, 48, 183, 115, 244, 182, 49, 245, 114, 113, 246, 50, 181, 247, 112, 180, 51>>,
  <<0, 158, 113, 239, 226, 124, 147, 13, 137, 23, 248, 102, 107, 245, 26, 132, 95, 193, 46, 176, 189, 35, 204, 82, 214, 72, 167, 57, 52, 170, 69, 219, 190, 32, 207, 81, 92, 194, 45, 179, 55, 169, 70, 216, 213, 75, 164, 58, 225, 127, 144, 14, 3, 157, 114, 236, 104, 246, 25, 135, 138, 20, 251, 101, 49, 175, 64, 222, 211, 77, 162, 60, 184, 38, 201, 87, 90, 196, 43, 181, 110, 240, 31, 129, 140, 18, 253, 99, 231, 121, 150, 8, 5, 155, 116, 234, 143, 17, 254, 96, 109, 243, 28, 130, 6, 152, 119, 233, 228, 122, 149, 11, 208, 78, 161, 63, 50, 172, 67, 221, 89, 199, 40, 182, 187, 37, 202, 84, 98, 252, 19, 141, 128, 30, 241, 111, 235, 117, 154, 4, 9, 151, 120, 230, 61, 163, 76, 210, 223, 65, 174, 48, 180, 42, 197, 91, 86, 200, 39, 185, 220, 66, 173, 51, 62, 160, 79, 209, 85, 203, 36, 186, 183, 41, 198, 88, 131, 29, 242, 108, 97, 255, 16, 142, 10, 148, 123, 229, 232, 118, 153, 7, 83, 205, 34, 188, 177, 47, 192, 94, 218, 68, 171, 53, 56, 166, 73, 215, 12, 146, 125, 227, 238, 112, 159, 1, 133, 27, 244, 106, 103, 249, 22, 136, 237, 115, 156, 2, 15, 145, 126, 224, 100, 250, 21, 139, 134, 24, 247, 105, 178, 44, 195, 93, 80, 206, 33, 191, 59, 165, 74, 212, 217, 71, 168, 54>>,
  <<0, 161, 15, 174, 30, 191, 17, 176, 60, 157, 51, 146, 34, 131, 45, 140, 120, 217, 119, 214, 102, 199, 105, 200, 68, 229, 75, 234, 90, 251, 85, 244, 240, 81, 255, 94, 238, 79, 225, 64, 204, 109, 195, 98, 210, 115, 221, 124, 136, 41, 135, 38, 150, 55, 153, 56, 180, 21, 187, 26, 170, 11, 165, 4, 173, 12, 162, 3, 179, 18, 188, 29, 145, 48, 158, 63, 143, 46, 128, 33, 213, 116, 218, 123, 203, 106, 196, 101, 233, 72, 230, 71, 247, 86, 248, 89, 93, 252, 82, 243, 67, 226, 76, 237, 97, 192, 110, 207, 127, 222, 112, 209, 37, 132, 42, 139, 59, 154, 52, 149, 25, 184, 22, 183, 7, 166, 8, 169, 23, 182, 24, 185, 9, 168, 6, 167, 43, 138, 36, 133, 53, 148, 58, 155, 111, 206, 96, 193, 113, 208, 126, 223, 83, 242, 92, 253, 77, 236, 66, 227, 231, 70, 232, 73, 249, 88, 246, 87, 219, 122, 212, 117, 197, 100, 202, 107, 159, 62, 144, 49, 129, 32, 142, 47, 163, 2, 172, 13, 189, 28, 178, 19, 186, 27, 181, 20, 164, 5, 171, 10, 134, 39, 137, 40, 152, 57, 151, 54, 194, 99, 205, 108, 220, 125, 211, 114, 254, 95, 241, 80, 224, 65, 239, 78, 74, 235, 69, 228, 84, 245, 91, 250, 118, 215, 121, 216, 104, 201, 103, 198, 50, 147, 61, 156, 44, 141, 35, 130, 14, 175, 1, 160, 16, 177, 31, 190>>,
  <<0, 164, 5, 161, 10, 174, 15, 171, 20, 176, 17, 181, 30, 186, 27, 191, 40, 140, 45, 137, 34, 134, 39, 131, 60, 152, 57, 157, 54, 146, 51, 151, 80, 244, 85, 241, 90, 254, 95, 251, 68, 224, 65, 229, 78, 234, 75, 239, 120, 220, 125, 217, 114, 214, 119, 211, 108, 200, 105, 205, 102, 194, 99, 199, 160, 4, 165, 1, 170, 14, 175, 11, 180, 16, 177, 21, 190, 26, 187, 31, 136, 44, 141, 41, 130, 38, 135, 35, 156, 56, 153, 61, 150, 50, 147, 55, 240, 84, 245, 81, 250, 94, 255, 91, 228, 64, 225, 69, 238, 74, 235, 79, 216, 124, 221, 121, 210, 118, 215, 115, 204, 104, 201, 109, 198, 98, 195, 103, 13, 169, 8, 172, 7, 163, 2, 166, 25, 189, 28, 184, 19, 183, 22, 178, 37, 129, 32, 132, 47, 139, 42, 142, 49, 149, 52, 144, 59, 159, 62, 154, 93, 249, 88, 252, 87, 243, 82, 246, 73, 237, 76, 232, 67, 231, 70, 226, 117, 209, 112, 212, 127, 219, 122, 222, 97, 197, 100, 192, 107, 207, 110, 202, 173, 9, 168, 12, 167, 3, 162, 6, 185, 29, 188, 24, 179, 23, 182, 18, 133, 33, 128, 36, 143, 43, 138, 46, 145, 53, 148, 48, 155, 63, 158, 58, 253, 89, 248, 92, 247, 83, 242, 86, 233, 77, 236, 72, 227, 71, 230, 66, 213, 113, 208, 116, 223, 123, 218, 126, 193, 101, 196, 96, 203, 111, 206, 106>>,
  <<0, 174, 17, 191, 34, 140, 51, 157, 68, 234, 85, 251, 102, 200, 119, 217, 136, 38, 153, 55, 170, 4, 187, 21, 204, 98, 221, 115, 238, 64, 255, 81, 93, 243, 76, 226, 127, 209, 110, 192, 25, 183, 8, 166, 59, 149, 42, 132, 213, 123, 196, 106, 247, 89, 230, 72, 145, 63, 128, 46, 179, 29, 162, 12, 186, 20, 171, 5, 152, 54, 137, 39, 254, 80, 239, 65, 220, 114, 205, 99, 50, 156, 35, 141, 16, 190, 1, 175, 118, 216, 103, 201, 84, 250, 69, 235, 231, 73, 246, 88, 197, 107, 212, 122, 163, 13, 178, 28, 129, 47, 144, 62, 111, 193, 126, 208, 77, 227, 92, 242, 43, 133, 58, 148, 9, 167, 24, 182, 57, 151, 40, 134, 27, 181, 10, 164, 125, 211, 108, 194, 95, 241, 78, 224, 177, 31, 160, 14, 147, 61, 130, 44, 245, 91, 228, 74, 215, 121, 198, 104, 100, 202, 117, 219, 70, 232, 87, 249, 32, 142, 49, 159, 2, 172, 19, 189, 236, 66, 253, 83, 206, 96, 223, 113, 168, 6, 185, 23, 138, 36, 155, 53, 131, 45, 146, 60, 161, 15, 176, 30, 199, 105, 214, 120, 229, 75, 244, 90, 11, 165, 26, 180, 41, 135, 56, 150, 79, 225, 94, 240, 109, 195, 124, 210, 222, 112, 207, 97, 252, 82, 237, 67, 154, 52, 139, 37, 184, 22, 169, 7, 86, 248, 71, 233, 116, 218, 101, 203, 18, 188, 3, 173, 48, 158, 33, 143>>,
  <<0, 193, 207, 14, 211, 18, 28, 221, 235, 42, 36, 229, 56, 249, 247, 54, 155, 90, 84, 149, 72, 137, 135, 70, 112, 177, 191, 126, 163, 98, 108, 173, 123, 186, 180, 117, 168, 105, 103, 166, 144, 81, 95, 158, 67, 130, 140, 77, 224, 33, 47, 238, 51, 242, 252, 61, 11, 202, 196, 5, 216, 25, 23, 214, 246, 55, 57, 248, 37, 228, 234, 43, 29, 220, 210, 19, 206, 15, 1, 192, 109, 172, 162, 99, 190, 127, 113, 176, 134, 71, 73, 136, 85, 148, 154, 91, 141, 76, 66, 131, 94, 159, 145, 80, 102, 167, 169, 104, 181, 116, 122, 187, 22, 215, 217, 24, 197, 4, 10, 203, 253, 60, 50, 243, 46, 239, 225, 32, 161, 96, 110, 175, 114, 179, 189, 124, 74, 139, 133, 68, 153, 88, 86, 151, 58, 251, 245, 52, 233, 40, 38, 231, 209, 16, 30, 223, 2, 195, 205, 12, 218, 27, 21, 212, 9, 200, 198, 7, 49, 240, 254, 63, 226, 35, 45, 236, 65, 128, 142, 79, 146, 83, 93, 156, 170, 107, 101, 164, 121, 184, 182, 119, 87, 150, 152, 89, 132, 69, 75, 138, 188, 125, 115, 178, 111, 174, 160, 97, 204, 13, 3, 194, 31, 222, 208, 17, 39, 230, 232, 41, 244, 53, 59, 250, 44, 237, 227, 34, 255, 62, 48, 241, 199, 6, 8, 201, 20, 213, 219, 26, 183, 118, 120, 185, 100, 165, 171, 106, 92, 157, 147, 82, 143, 78, 64, 129>>,
  <<0, 198, 193, 7, 207, 9, 14, 200, 211, 21, 18, 212, 28, 218, 221, 27, 235, 45, 42, 236, 36, 226, 229, 35, 56, 254, 249, 63, 247, 49, 54, 240, 155, 93, 90, 156, 84, 146, 149, 83, 72, 142, 137, 79, 135, 65, 70, 128, 112, 182, 177, 119, 191, 121, 126, 184, 163, 101, 98, 164, 108, 170, 173, 107, 123, 189, 186, 124, 180, 114, 117, 179, 168, 110, 105, 175, 103, 161, 166, 96, 144, 86, 81, 151, 95, 153, 158, 88, 67, 133, 130, 68, 140, 74, 77, 139, 224, 38, 33, 231, 47, 233, 238, 40, 51, 245, 242, 52, 252, 58, 61, 251, 11, 205, 202, 12, 196, 2, 5, 195, 216, 30, 25, 223, 23, 209, 214, 16, 246, 48, 55, 241, 57, 255, 248, 62, 37, 227, 228, 34, 234, 44, 43, 237, 29, 219, 220, 26, 210, 20, 19, 213, 206, 8, 15, 201, 1, 199, 192, 6, 109, 171, 172, 106, 162, 100, 99, 165, 190, 120, 127, 185, 113, 183, 176, 118, 134, 64, 71, 129, 73, 143, 136, 78, 85, 147, 148, 82, 154, 92, 91, 157, 141, 75, 76, 138, 66, 132, 131, 69, 94, 152, 159, 89, 145, 87, 80, 150, 102, 160, 167, 97, 169, 111, 104, 174, 181, 115, 116, 178, 122, 188, 187, 125, 22, 208, 215, 17, 217, 31, 24, 222, 197, 3, 4, 194, 10, 204, 203, 13, 253, 59, 60, 250, 50, 244, 243, 53, 46, 232, 239, 41, 225, 39, 32, 230>>,
  <<0, 219, 251, 32, 187, 96, 64, 155, 59, 224, 192, 27, 128, 91, 123, 160, 118, 173, 141, 86, 205, 22, 54, 237, 77, 150, 182, 109, 246, 45, 13, 214, 236, 55, 23, 204, 87, 140, 172, 119, 215, 12, 44, 247, 108, 183, 151, 76, 154, 65, 97, 186, 33, 250, 218, 1, 161, 122, 90, 129, 26, 193, 225, 58, 149, 78, 110, 181, 46, 245, 213, 14, 174, 117, 85, 142, 21, 206, 238, 53, 227, 56, 24, 195, 88, 131, 163, 120, 216, 3, 35, 248, 99, 184, 152, 67, 121, 162, 130, 89, 194, 25, 57, 226, 66, 153, 185, 98, 249, 34, 2, 217, 15, 212, 244, 47, 180, 111, 79, 148, 52, 239, 207, 20, 143, 84, 116, 175, 103, 188, 156, 71, 220, 7, 39, 252, 92, 135, 167, 124, 231, 60, 28, 199, 17, 202, 234, 49, 170, 113, 81, 138, 42, 241, 209, 10, 145, 74, 106, 177, 139, 80, 112, 171, 48, 235, 203, 16, 176, 107, 75, 144, 11, 208, 240, 43, 253, 38, 6, 221, 70, 157, 189, 102, 198, 29, 61, 230, 125, 166, 134, 93, 242, 41, 9, 210, 73, 146, 178, 105, 201, 18, 50, 233, 114, 169, 137, 82, 132, 95, 127, 164, 63, 228, 196, 31, 191, 100, 68, 159, 4, 223, 255, 36, 30, 197, 229, 62, 165, 126, 94, 133, 37, 254, 222, 5, 158, 69, 101, 190, 104, 179, 147, 72, 211, 8, 40, 243, 83, 136, 168, 115, 232, 51, 19, 200>>,
  <<0, 229, 135, 98, 67, 166, 196, 33, 134, 99, 1, 228, 197, 32, 66, 167, 65, 164, 198, 35, 2, 231, 133, 96, 199, 34, 64, 165, 132, 97, 3, 230, 130, 103, 5, 224, 193, 36, 70, 163, 4, 225, 131, 102, 71, 162, 192, 37, 195, 38, 68, 161, 128, 101, 7, 226, 69, 160, 194, 39, 6, 227, 129, 100, 73, 172, 206, 43, 10, 239, 141, 104, 207, 42, 72, 173, 140, 105, 11, 238, 8, 237, 143, 106, 75, 174, 204, 41, 142, 107, 9, 236, 205, 40, 74, 175, 203, 46, 76, 169, 136, 109, 15, 234, 77, 168, 202, 47, 14, 235, 137, 108, 138, 111, 13, 232, 201, 44, 78, 171, 12, 233, 139, 110, 79, 170, 200, 45, 146, 119, 21, 240, 209, 52, 86, 179, 20, 241, 147, 118, 87, 178, 208, 53, 211, 54, 84, 177, 144, 117, 23, 242, 85, 176, 210, 55, 22, 243, 145, 116, 16, 245, 151, 114, 83, 182, 212, 49, 150, 115, 17, 244, 213, 48, 82, 183, 81, 180, 214, 51, 18, 247, 149, 112, 215, 50, 80, 181, 148, 113, 19, 246, 219, 62, 92, 185, 152, 125, 31, 250, 93, 184, 218, 63, 30, 251, 153, 124, 154, 127, 29, 248, 217, 60, 94, 187, 28, 249, 155, 126, 95, 186, 216, 61, 89, 188, 222, 59, 26, 255, 157, 120, 223, 58, 88, 189, 156, 121, 27, 254, 24, 253, 159, 122, 91, 190, 220, 57, 158, 123, 25, 252, 221, 56, 90, 191>>,
  <<0, 243, 171, 88, 27, 232, 176, 67, 54, 197, 157, 110, 45, 222, 134, 117, 108, 159, 199, 52, 119, 132, 220, 47, 90, 169, 241, 2, 65, 178, 234, 25, 216, 43, 115, 128, 195, 48, 104, 155, 238, 29, 69, 182, 245, 6, 94, 173, 180, 71, 31, 236, 175, 92, 4, 247, 130, 113, 41, 218, 153, 106, 50, 193, 253, 14, 86, 165, 230, 21, 77, 190, 203, 56, 96, 147, 208, 35, 123, 136, 145, 98, 58, 201, 138, 121, 33, 210, 167, 84, 12, 255, 188, 79, 23, 228, 37, 214, 142, 125, 62, 205, 149, 102, 19, 224, 184, 75, 8, 251, 163, 80, 73, 186, 226, 17, 82, 161, 249, 10, 127, 140, 212, 39, 100, 151, 207, 60, 183, 68, 28, 239, 172, 95, 7, 244, 129, 114, 42, 217, 154, 105, 49, 194, 219, 40, 112, 131, 192, 51, 107, 152, 237, 30, 70, 181, 246, 5, 93, 174, 111, 156, 196, 55, 116, 135, 223, 44, 89, 170, 242, 1, 66, 177, 233, 26, 3, 240, 168, 91, 24, 235, 179, 64, 53, 198, 158, 109, 46, 221, 133, 118, 74, 185, 225, 18, 81, 162, 250, 9, 124, 143, 215, 36, 103, 148, 204, 63, 38, 213, 141, 126, 61, 206, 150, 101, 16, 227, 187, 72, 11, 248, 160, 83, 146, 97, 57, 202, 137, 122, 34, 209, 164, 87, 15, 252, 191, 76, 20, 231, 254, 13, 85, 166, 229, 22, 78, 189, 200, 59, 99, 144, 211, 32, 120, 139>>,
  <<0, 252, 181, 73, 39, 219, 146, 110, 78, 178, 251, 7, 105, 149, 220, 32, 156, 96, 41, 213, 187, 71, 14, 242, 210, 46, 103, 155, 245, 9, 64, 188, 117, 137, 192, 60, 82, 174, 231, 27, 59, 199, 142, 114, 28, 224, 169, 85, 233, 21, 92, 160, 206, 50, 123, 135, 167, 91, 18, 238, 128, 124, 53, 201, 234, 22, 95, 163, 205, 49, 120, 132, 164, 88, 17, 237, 131, 127, 54, 202, 118, 138, 195, 63, 81, 173, 228, 24, 56, 196, 141, 113, 31, 227, 170, 86, 159, 99, 42, 214, 184, 68, 13, 241, 209, 45, 100, 152, 246, 10, 67, 191, 3, 255, 182, 74, 36, 216, 145, 109, 77, 177, 248, 4, 106, 150, 223, 35, 153, 101, 44, 208, 190, 66, 11, 247, 215, 43, 98, 158, 240, 12, 69, 185, 5, 249, 176, 76, 34, 222, 151, 107, 75, 183, 254, 2, 108, 144, 217, 37, 236, 16, 89, 165, 203, 55, 126, 130, 162, 94, 23, 235, 133, 121, 48, 204, 112, 140, 197, 57, 87, 171, 226, 30, 62, 194, 139, 119, 25, 229, 172, 80, 115, 143, 198, 58, 84, 168, 225, 29, 61, 193, 136, 116, 26, 230, 175, 83, 239, 19, 90, 166, 200, 52, 125, 129, 161, 93, 20, 232, 134, 122, 51, 207, 6, 250, 179, 79, 33, 221, 148, 104, 72, 180, 253, 1, 111, 147, 218, 38, 154, 102, 47, 211, 189, 65, 8, 244, 212, 40, 97, 157, 243, 15, 70, 186>>>>
RsRow == <<
  <<1, 17, 8, 14, 11, 10, 21, 15>>, <<17, 9, 13, 23, 5, 20, 12, 22>>, <<2, 16, 24, 19, 7, 18, 6, 4>>,
  <<17, 8, 14, 11, 10, 21, 15, 3>>>>
SerpentOn == <<

  <<<<0, 2, 3, 6, 7, 9, 12, 14>>, <<0, 2, 4, 5, 7, 8, 11, 12>>, <<2, 5, 6, 8, 9, 10, 12, 15>>, <<1, 2, 4, 7, 8, 9, 14, 15>>>>,
  <<<<0, 3, 4, 6, 8, 9, 13, 14>>, <<0, 2, 3, 7, 9, 10, 12, 14>>, <<0, 1, 3, 6, 10, 12, 13, 15>>, <<0, 1, 4, 7, 9, 10, 11, 13>>>>,
  <<<<2, 3, 4, 7, 8, 9, 13, 14>>, <<1, 2, 4, 6, 7, 10, 13, 15>>, <<1, 2, 5, 7, 8, 10, 11, 14>>, <<0, 3, 5, 6, 7, 8, 10, 13>>>>,
  <<<<1, 2, 5, 7, 8, 9, 13, 14>>, <<1, 2, 6, 7, 10, 12, 13, 15>>, <<1, 4, 6, 8, 11, 13, 14, 15>>, <<1, 2, 3, 4, 5, 8, 12, 15>>>>,
  <<<<0, 1, 3, 6, 9, 12, 14, 15>>, <<1, 3, 6, 7, 8, 11, 13, 14>>, <<1, 4, 7, 9, 10, 13, 14, 15>>, <<1, 2, 4, 6, 11, 12, 13, 15>>>>,
  <<<<0, 1, 3, 6, 9, 12, 14, 15>>, <<0, 2, 3, 5, 9, 10, 13, 14>>, <<0, 1, 4, 7, 10, 12, 13, 14>>, <<0, 3, 5, 6, 7, 10, 11, 12>>>>,
  <<<<0, 3, 7, 9, 10, 11, 12, 13>>, <<0, 1, 6, 7, 8, 11, 13, 14>>, <<0, 2, 3, 5, 6, 8, 11, 12>>, <<2, 4, 7, 8, 9, 11, 12, 14>>>>,
  <<<<0, 1, 2, 7, 8, 12, 13, 14>>, <<2, 4, 6, 7, 8, 11, 13, 15>>, <<1, 2, 4, 8, 9, 10, 14, 15>>, <<1, 2, 4, 5, 7, 10, 11, 12>>>>>>
=============================================================================

package main

// The beginning of a PPMd (order 6) stream made by 7-zip and its content.
const ppmdPacked = "\x00L%\x1a\xe0\xa9\xee\x1d\xb4\xb2\xac\x84j^C_^\xfb@_\aT\a\xa2UO\xee\xa1i\xf3\xf3\xf8\xce- \x14^\x11t\xb7\xf7\x82\"\xf0\bG\x19\xedp?y`\x15\x98\x96\x82Ls\xc37\xa9qd#p\xcb?\xf6w?W:\xd5\x1a\x82:\xc7嫘_p\x7fD$Լdz\xe9\xcb\xfa\xa3.t\xae;߬\xa8\xdc\x18\x85\x1f\xf2sL(\xb6;\x8fA%\xeeV\xc2؝q\x10&EB'\xf9 +\xcfp\x8b[\x8a\x84L\x81#\x99\xdf\xc0\x16\xdeg\xc0+\xef1~\xd7E\xb0?\xe4\xa7Q\x17\x9fƼ\x17\xa5\xd0\"GAN\xdb\x1b\\\x83p\x94\x8e6\x8cz\x12\xa1\x01e >\xad\x14G\xc6\x15G\xf1\xfb\xf5\xb98\xecv\xcbҾ\xc6\aS\x8e!Eˏ\x03v\n\x7f\xfea\xeb\xe9\xf2^~G\xf1n\xb0Q\x91\x05w\x91d\xa1\xf21\x83J0\xfa\xc9K\xdcMJ_\xf3\x89\xfc\x99\xbb>\xbfL\xc9\xfdVY[\xbd\xfd\xd0\xc5\xed\x89\xec\r\xde\xd3\xfb̘\xd19>\x9bZМ\x82\b\xbc\r\x91\xa4\x87Ş. s\x98\xbb\x05}\tX`\x93\xdc\x14\x94\x8f\xa8\x0f\xf9\xe7\xda&h5\xc8\xf0\xa2\x10\x82\x05\x98\xf3\x98ߎ\xb3c\xc8\xd0\xc3\xc4\xff\x9a\xfd|A\x01p\t\xd9\x7f\xac\xbdp\xf9(\xbf\xb4^\x97\x95 \xc8,Ȕ\x9e@\xc4Сj\xe9\xdct~)<\xeaU\x14\f\xe8\xb7\xe8.z\xb0\xbe\xa9O^\xc7<\x06\xcf+\xd4\xd8L5\xab\x9e\x90\x82\xad9\t\x80\x81fW.|\x9f\x92\x8cT\xee\x99=\x16I2xTļ\xa7d\xa5.kq\xb8\xa4\x12rH\xf4a\xc4\x1d\x1drO(i\x81a\xd7\a\xab\xa89\xff\x88\x7f\xf4\xccL>\xe8\xa9z\xdeat\xb5MLOzg\xaf\xbc{\xce\xd6\x7f\xa92\xc6ޞ^\x9eRz\fM\xb4\x19+>\x8bd\xb4(\x00I\xac>\xaf\t.\x8bm\xa4u\x12\x03\x18J\xa7\x06\xb0\xa4R\xae\x91(\xceI\xea\x1fè\x0e\t-w8'yp\xf1\x17\xa4\xfc\x01g\xd8\xf9\xf6\x97\x83\x05\xd5\xfe\x056\xd3\xd4\xf5}\xf2\xb5[\xfd\x96\x9eЛ\x8aNv\xf0a\xf6\x13rG\xdaj\x8du\x0f\a\x98Ɨ\x02A\xf4\xfb\x0e\xaf\xbc\xe9U\xb5\xf7\t\x19J\x8f|\n\x7ff%m\x13\xec\xd0\xc6X\xb0ɱ\xa5H\x98n:!\"[|v\xd8\xf13\x80V1\x1a\xb5\xf6\x93ķ\xac\x8aM\xbd.\x04UlY\xd7o\xf4\xa9\xd8̴\xbbWV\x8fNz\x8a\xfa\x8eyPD4+\u008cN\xb7~u(-\xf6\n\xb4:\x00)@\xbe\x06\r\x9b\xcc5\x05!\xd9\xc0y/\xe4\b\xb7\xb2C@\xe9zhV\x94yK\x15(\vAqU\x12\r\xae\xfeb\xb6\xdb\x00\x0f\xdd\xdbA~\xe3\xe6O\x95\xc4/\x9e|\x04\xa0#w\xa1\xb9\xba\xa8`\x06{;\x19\xdc\xcb\x13\x91\xb4\xbc\xf8\xb8\xbe\xadw\xf4\xaa\xaa\x03F\xa6M0\xd0h\x8e\x8f*,us\xd4\xf0\xf7Vѕ\xa7\xcc:\xc8\xc6qo\xa5\x90H@\x8e\xc5\xc5&g\x8a\xe8O*\xe5j{\xb9\xd9\x18\x8fۄ\xd3Q\xc4\xe8\x97o9_\xfc\xcfi\xc9\xf9\x9e\xc6Ռ\x06\x19\x15@\xa1E\xaeK~\xcb\xff\x12\xf0\x17\x1d\xf6\xd6\xcc\xfc%(n\xa7k'լ_\x93\xf1\\\"[1\x8f$3\xa4u-\xbfC\x98G]i\xa3\x02;\xbfm\x85>b\xf7\x87O\x9d\xe8\xec|1\xbf\x94N\x8b\xe465\xf0\x1fbz:\x11\x8c6s\x19Z\xd4\xe9Oc\xa7HB\xd9,TS\x8a\xa8\x9e\xbb\xf0\xcf\b%\xb1\xeaD\x18\x9ds\xf3\xd0\xd7+h\x12u\xf4\xf9S\xbf\xbc\xd1\xd6ml\r\xfaɽ\xd5\xe6e\xf3\xb3\xf1\xf6;2\x18\xae\xb6\x85z&\x06\xb7E\xb7\x1d\xf2\xfa\x03\xa6#Nv&\xc0\xb7\xa4姎\xd5\xe4n\x85\xc6s\xbd\xb9/\xff\x03\x0e\xe6\xf8@\x15t\xccHu_$&NC\xa6\x9cVEv\xa3fQ\xa5x\x11\xe5\x0e\xf3\x1b\xf4\xe94\x8cC\xf7\x14\x92\x8a\xb7\xac\xa1eP\x14\x89\x9d\xb5\xfa\xab\x1b\xab}̈́Ч\xa7F\xc2)&\x95\xb4\xd800\xb4\x88o\x80\x14\xeb\xee*g\xf0!3P/\x9c\xeb\x05B\xe4D\xff\b\x9ai|\xc4>@6\xd2~~\x8d~6\xa3\u0b84Kɖc:\x13\xd1\a\xd4|\x9cW\xe4\xdc\xe8\x1f\x9c\xa1an\x80p\x8eUe\xf7i1\v\x95\xad7\xd0C\x1e\x12\x03O\xbe\x81\xc9bm\x89\x8dVxGsF\x0f\x8f\xc1\xe6H\x81W\x90\xd3:\x80\x19K\xe4#ʙ\xb1\x17*\xbcj\x8e\xca[\xf0\xedM\x7f\r\xef2\xdb(\xd4\x12\xf8\u05fe\x94k$\xc5nZ1V]\bXθ)X\bgW:zK\xfcT\xaaT\x9d\xa1\xa7\\\x82ȓ\x82\x98\v\x85\xb7\x8d{[\xe9\xe8\x14t\x90\x90I\x15ѡ\xe1%\x03\x0f\xce\x00\x8f\xba?_\t\t=\xef\x19\x93\xc8\xcfv?\xb8ZB\xf8\xe02\x9b랱D\xc2\xd2\xe0\x8f\xe5\xbb\x10DsbY*G\xff\xf6\x9a^\xdcP\v\xcc\x06h\x1a\x91\xa5xn\x1c\a\xe5\xb7\xe8I\xf3\x9f\xe7\xaeD\xde$\x16\xa7V\xef\x1b\x82QN3\x87\x8c\x87\xf4Yz\xa8\x01\xed+\x9b\x92v\x1b\xb5S\x81\xc74\x9eI\x9d\x8a'\x00\axŊ\"\xf4$D\x9d\x89\xe5\x11\xf0Kdz\x810\x83\xfd\xc2\x14\x89r\xcfм\x00\xa98\xf8JXL\xfeZ\xd6M\xe1\x94A\xe7\xf1Qc|\xe5\xdafM\x8e\xf1\xbd\xf1\x81\u05ecʸ\xcd]\x966柗\xb9\x9dC\xdc\xf0\n/\xa0a\xb2G\xba\xa2\xdc(\xfc\xca\xfez\x97\x16\aXGq\x12<\xa0\x11\xfc\xf0I\xac\x15RD\xbf\x17)\xe8\xe5\xef\nF\x96\xd3@Y~\x1f\xeb\x9dt\x15X)\x032\x1f\xc9]GK#}\x1d\xf9a\x0e\xeaO\x05Ϳ\x84\x05\x80\xf8\xa8\xba\xa8\x18\xeb}\xcf\x7f\x01=\\6\xbc_\x86=\x1f\xec\x7f$\xf4$6TB<\x03\xdcj\x8c\xf9O\r\x8bq\x1e\\t \xf4\xf7\x1d"

const ppmdPlain = "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. Metus aliquam eleifend mi in nulla posuere sollicitudin. Dui faucibus in ornare quam viverra orci sagittis eu. Id nibh tortor id aliquet. Varius vel pharetra vel turpis nunc eget. Natoque penatibus et magnis dis. Maecenas ultricies mi eget mauris pharetra et ultrices neque ornare. Ultrices neque ornare aenean euismod elementum nisi quis eleifend quam. Massa vitae tortor condimentum lacinia quis vel. Amet justo donec enim diam vulputate. In fermentum posuere urna nec tincidunt praesent semper feugiat.\n\nQuisque sagittis purus sit amet volutpat consequat mauris. Nullam ac tortor vitae purus faucibus. Fusce id velit ut tortor pretium viverra suspendisse. Morbi tincidunt ornare massa eget egestas purus. Turpis egestas maecenas pharetra convallis posuere morbi leo urna molestie. Aliquam sem et tortor consequat. Maecenas pharetra convallis posuere morbi leo. Tincidunt id aliquet risus feugiat in ante. Aliquam etiam erat velit scelerisque in dictum non. Tellus integer feugiat scelerisque varius. Tellus rutrum tellus pellentesque eu tincidunt tortor aliquam nulla facilisi. Amet luctus venenatis lectus magna fringilla urna porttitor rhoncus. Diam in arcu cursus euismod. Morbi tristique senectus et netus et. Egestas tellus rutrum tellus pellentesque eu tincidunt tortor. Egestas tellus rutrum tellus pellentesque eu tincidunt tortor aliquam nulla. Vitae turpis massa sed elementum tempus egestas sed sed risus. Urna id volutpat lacus laoreet non curabitur gravida arcu ac. Nibh nisl condimentum id venenatis a condimentum vitae sapien.\n\nUt sem nulla pharetra diam sit amet nisl suscipit. Lobortis mattis aliquam faucibus purus. Sagittis vitae et leo duis ut diam quam. Posuere urna nec tincidunt praesent. Lacus sed turpis tincidunt id aliquet risus. Consequat ac felis donec et. Accumsan in nisl nisi scelerisque eu ultrices. Pharetra diam sit amet nisl suscipit adipiscing bibendum. Quis enim lobortis scelerisque fermentum dui faucibus in ornare quam. Diam quis enim lobortis scelerisque fermentum dui faucibus. Pharetra diam sit amet nisl suscipit adipiscing. Platea dictumst quisque sagittis purus sit amet volutpat consequat. Potenti nullam ac tortor vitae purus faucibus ornare. Ornare massa eget egestas purus viverra accumsan in.\n\nVelit egestas dui id ornare. Neque sodales ut etiam sit amet. At tempor commodo ullamcorper a lacus. Aliquam sem et tortor consequat id porta nibh. Diam donec adipiscing tristique risus nec feugiat in fermentum posuere. In ante metus dictum at. Fusce ut placerat orci nulla. Suspendisse faucibus interdum posuere lorem ipsum. Pellentesque nec nam aliquam sem et tortor. Leo vel fringilla est ullamcorper eget. Nibh nisl condimentum id venenatis. Ut aliquam purus sit amet. Quis imperdiet massa tincidunt nunc pulvinar sapien et ligula. Nunc sed augue lacus viverra vitae congue eu. Id nibh tortor id aliquet.\n\nConvallis a cras semper auctor. Non quam lacus suspendisse faucibus interdum. Consequat mauris nunc congue nisi vitae suscipit tellus mauris. Elit eget gravida cum sociis natoque penatibus et magnis dis. Odio eu feugiat pretium nibh ipsum. A lacus vestibulum sed arcu non odio euismod lacinia at. Tellus mauris a diam maecenas sed enim ut sem viverra. Nulla posuere sollicitudin aliquam ultrices sagittis. Justo donec enim diam vulputate ut pharetra sit. Pretium nibh ipsum consequat nisl. Morbi quis commodo odio aenean. Vel fringilla est ullamcorper eget nulla facilisi etiam dignissim.\nLorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. Urna duis convallis convallis tellus id interdum velit. Blandit turpis cursus in hac. Aliquam vestibulum morbi blandit cursus. Ultricies tristique nulla aliquet enim tortor at auctor urna. Aliquam sem fringilla ut morbi tincidunt augue. Cum sociis natoque penatibus et magnis dis parturient. Congue nisi vitae suscipit tellus mauris. Tempor commodo ullamcorper a lacus. Convallis tellus id interdum velit laoreet id donec ultrices tincidunt. Amet dictum sit amet justo. Eu facilisis sed odio morbi quis commodo. Tristique senectus et netus et malesuada fames ac turpis egestas. Aliquam faucibus purus in massa tempor. Elementum facilisis leo vel fringilla. Posuere lorem ipsum dolor sit amet consectetur. Consectetur adipiscing elit duis tristique sollicitudin. Amet est placerat in egestas erat imperdiet sed euismod. Dolor sit amet consectetur adipiscing elit ut aliquam purus sit. Fermentum leo vel orci porta non.\n\nDignissim cras tincidunt lobortis feugiat vivamus. Convallis convallis tellus id interdum velit laoreet. Tempus egestas sed sed risus pretium quam vulputate. Morbi leo urna molestie at elementum eu facilisis sed odio. Dolor purus non enim praesent elementum. Sit amet purus gravida quis. Aliquam nulla facilisi cras fermentum odio eu feugiat. Neque sodales ut etiam sit amet. Vitae nunc sed velit dignissim sodales ut eu. Mauris pellentesque pulvinar pellentesque habitant morbi.\n\nQuis hendrerit dolor magna eget est lorem. Sed id semper risus in hendrerit gravida rutrum quisque. Aliquam etiam erat velit scelerisque. Nec ultrices dui sapien eget. Morbi leo urna molestie at elementum eu facilisis sed. Nunc sed blandit libero volutpat sed. Ut tristique et egestas quis ipsum suspendisse ultrices gravida. Nisi quis eleifend quam adipiscing. Malesuada fames ac turpis egestas sed. Egestas diam in arcu cursus euismod. Euismod quis viverra nibh cras pulvinar mattis nunc sed. Quis ipsum suspendisse ultrices gravida.\n\nTortor at risus viverra adipiscing at in tellus integer. Dictum varius duis at consectetur lorem donec massa. Pellentesque elit ullamcorper dignissim cras tincidunt lobortis feugiat. Laoreet sit amet cursus sit amet dictum. Sit amet venenatis urna cursus eget nunc scelerisque viverra. Rhoncus urna neque viverra justo nec ultrices dui sapien eget. Morbi leo urna mol"

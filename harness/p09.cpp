// Bindings, descriptor sets and pipelines of passes that draw or dispatch
#include "pipes.hpp"
using namespace h;
CASE( descriptors_and_pipelines, 400 )
{
	std::map< uint32_t, std::pair< uint64_t, uint64_t > > made;      // program -> pipeline, set by recording
	{
	auto start = world().trace.size();
	Pipes s{ rng, uint32_t( rng.below( 3 ) ) };
	cx.note( "kind", s.kind ); cx.note( "instances", s.inst ); cx.note( "programs", s.progs ); cx.note( "uses", s.uses.size() );
	crg::RecordContext rc{ s.cache };
	std::vector< bool > seen( s.inst );
	uint32_t rounds = rng.range( 1, 5 );
	uint64_t layout{}, pool{}, pipelineLayout{};
	std::map< uint32_t, uint64_t > sets, pipes;
	uint64_t stages = s.kind == 0 ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_VERTEX_BIT | VK_SHADER_STAGE_TESSELLATION_CONTROL_BIT | VK_SHADER_STAGE_TESSELLATION_EVALUATION_BIT | VK_SHADER_STAGE_GEOMETRY_BIT | VK_SHADER_STAGE_FRAGMENT_BIT;
	std::vector< Rec > early{ world().trace.begin() + ptrdiff_t( start ), world().trace.end() };      // what building the graph did
	for ( uint32_t k = 0; k < rounds; ++k )
	{
		auto cb = VkCommandBuffer( 0x7777 );
		auto i = rng.below( s.inst );
		cx.note( "index", i );
		auto t = s.record( rc, i, cb );
		if ( k == 0 )
		{
			// a dispatch is set up with the graph, for the instance that is then current
			auto ep = only( early, { "vkCreateComputePipelines", "vkCreateGraphicsPipelines" } );
			cx.eq( ep.size(), size_t( s.kind == 0 ? 1 : 0 ), "pipelines made with the graph" );
			if ( ep.size() == 1 ) { pipes[0] = val( ep[0], "handle" ); cx.eq( val( ep[0], "module" ), uint64_t( 0x5000 ), "stage of the pipeline made with the graph" ); }
			early.insert( early.end(), t.begin(), t.end() );
		}
		auto & all = k == 0 ? early : t;
		// a graphics pass may start over (its render pass changed): follow what it made last
		auto sl = only( all, { "vkCreateDescriptorSetLayout" } ), pl = only( all, { "vkCreatePipelineLayout" } ), po = only( all, { "vkCreateDescriptorPool" } );
		cx.require( ( k == 0 && sl.size() == 1 ) || ( s.kind == 0 && sl.empty() ) || ( s.kind && sl.size() <= 1 ), "layout of the bindings made once" );
		cx.eq( sl.size(), po.size(), "one pool for each layout" );
		cx.eq( sl.size(), pl.size(), "one pipeline layout for each layout" );
		if ( sl.size() == 1 && po.size() == 1 && pl.size() == 1 )
		{
			sets.clear(); if ( k ) pipes.clear();
			Rec w{ "vkCreateDescriptorSetLayout", {} };
			w( "n", s.uses.size() );
			std::map< uint32_t, uint32_t > room;
			for ( size_t u = 0; u < s.uses.size(); ++u )
			{
				auto p = "b" + std::to_string( u );
				w( p + ".binding", s.uses[u].binding )( p + ".type", s.uses[u].type )( p + ".count", 1 )( p + ".stages", stages );
				room[s.uses[u].type] += s.inst;
			}
			layout = val( sl[0], "handle" );
			w( "handle", layout );
			cx.eq( sl[0], w, "bindings" );
			pool = val( po[0], "handle" );
			cx.eq( val( po[0], "maxSets" ), uint64_t( s.inst ), "sets in the pool" );
			cx.eq( val( po[0], "n" ), uint64_t( room.size() ), "sizes in the pool" );
			for ( uint32_t z = 0; z < room.size(); ++z ) cx.eq( val( po[0], "s" + std::to_string( z ) + ".count" ), uint64_t( room[uint32_t( val( po[0], "s" + std::to_string( z ) + ".type" ) )] ), "descriptors in the pool" );
			Rec wl{ "vkCreatePipelineLayout", {} };
			wl( "sets", 1 + s.layouts.size() )( "push", 0 )( "set0", layout );
			for ( size_t l = 0; l < s.layouts.size(); ++l ) wl( "set" + std::to_string( l + 1 ), H( s.layouts[l] ) );
			pipelineLayout = val( pl[0], "handle" );
			wl( "handle", pipelineLayout );
			cx.eq( pl[0], wl, "pipeline layout" );
		}
		// the set of the instance
		auto al = only( t, { "vkAllocateDescriptorSets" } ), up = only( t, { "write" } );
		if ( sets.find( i ) == sets.end() )
		{
			cx.eq( al.size(), size_t( 1 ), "one set is allocated" );
			if ( al.size() == 1 )
			{
				sets[i] = val( al[0], "handle0" );
				cx.eq( al[0], Rec{ "vkAllocateDescriptorSets", {} }( "pool", pool )( "n", 1 )( "layout0", layout )( "handle0", sets[i] ), "the set" );
			}
			std::vector< Rec > w;
			for ( auto & u : s.uses )
			{
				Rec r{ "write", {} };
				r( "set", sets[i] )( "binding", u.binding )( "element", 0 )( "type", u.type );
				if ( u.image )
				{
					bool smp = u.type == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
					r( "sampler", smp ? 100 + 10 * uint64_t( u.smp.magFilter ) + u.smp.minFilter : 0 )( "view", H( s.cache.createImageView( u.views[u.views.size() == 1 ? 0 : i] ) ) )( "layout", smp ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_GENERAL );
				}
				else if ( u.view ) { r( "bufferView", H( u.view ) ); }
				else r( "buffer", H( Pipes::at( u.bufs, i ) ) )( "offset", u.offset )( "range", u.size );
				w.push_back( r );
			}
			for ( auto & r : up ) if ( val( r, "bufferView" ) != ~uint64_t( 0 ) ) while ( r.f.back().first != "bufferView" ) r.f.pop_back();   // a view says which buffer
			// a sampler is known by what it was created with
			for ( auto & r : up ) for ( auto & p : r.f ) if ( p.first == "sampler" && p.second ) for ( auto & c : world().trace ) if ( c.fn == "vkCreateSampler" && val( c, "handle" ) == p.second ) { p.second = 100 + 10 * val( c, "mag" ) + val( c, "min" ); break; }
			cx.eq( up, w, "what the set is written with" );
		}
		else cx.eq( al.size() + up.size(), size_t( 0 ), "the set is there already" );
		// the pipeline of the program
		auto cp = only( t, { "vkCreateComputePipelines", "vkCreateGraphicsPipelines" } );
		auto prog = s.programOf( i );
		if ( s.kind && !only( t, { "vkCreateRenderPass" } ).empty() ) pipes.erase( prog );       // a pipeline is made for its render pass
		if ( pipes.find( prog ) == pipes.end() )
		{
			cx.eq( cp.size(), size_t( 1 ), "one pipeline is made" );
			if ( cp.size() == 1 )
			{
				pipes[prog] = val( cp[0], "handle" );
				cx.eq( cp[0].fn, std::string( s.kind ? "vkCreateGraphicsPipelines" : "vkCreateComputePipelines" ), "kind of pipeline" );
				cx.eq( val( cp[0], "layout" ), pipelineLayout, "layout of the pipeline" );
				if ( s.kind ) cx.eq( val( cp[0], "stages" ), uint64_t( s.stagesOf[prog] ), "stages of the pipeline" );
				else cx.eq( val( cp[0], "module" ), uint64_t( 0x5000 + 16 * prog ), "stage of the pipeline" );
				auto rp = only( t, { "vkCreateRenderPass" } );
				if ( s.kind && !rp.empty() ) cx.eq( val( cp[0], "renderPass" ), val( rp.back(), "handle" ), "render pass of the pipeline" );
			}
		}
		else cx.eq( cp.size(), size_t( 0 ), "the pipeline is there already" );
		auto bp = only( t, { "vkCmdBindPipeline" } ), bd = only( t, { "vkCmdBindDescriptorSets" } );
		cx.require( bp.size() == 1 && bd.size() == 1, "one pipeline and one set are bound" );
		if ( bp.size() == 1 && bd.size() == 1 )
		{
			cx.eq( val( bp[0], "pipeline" ), pipes[prog], "the pipeline of the program" );
			cx.eq( val( bd[0], "set0" ), sets[i], "the set of the instance" );
			cx.eq( val( bd[0], "layout" ), pipelineLayout, "the layout of the pipeline" );
			cx.eq( val( bp[0], "point" ), uint64_t( s.kind ? VK_PIPELINE_BIND_POINT_GRAPHICS : VK_PIPELINE_BIND_POINT_COMPUTE ), "the bind point" );
		}
		if ( s.kind == 0 && s.resettable && rng.chance( 1, 4 ) )
		{
			// another program for the instance
			auto stages2 = s.program( prog );
			stages2[0].module = VkShaderModule( uint64_t( 0x5000 + 16 * prog ) );
			auto before = countAlive( "Pipeline" );
			if ( s.progs != 2 )
			{
				auto from = world().trace.size();
				static_cast< crg::ComputePass * >( s.pass )->resetPipeline( stages2, i );
				std::vector< Rec > rt{ world().trace.begin() + ptrdiff_t( from ), world().trace.end() };
				auto made2 = only( rt, { "vkCreateComputePipelines" } );
				cx.eq( made2.size(), size_t( 1 ), "the pipeline is made again" );
				cx.eq( only( rt, { "vkDestroyPipeline" } ).size(), size_t( 0 ), "the former one is kept until its uses end" );
				if ( made2.size() == 1 ) pipes[prog] = val( made2[0], "handle" );
				s.dev.ctx.delQueue.clear( s.dev.ctx );
				cx.eq( countAlive( "Pipeline" ), before, "and then destroyed" );
			}
		}
	}
	s.dev.ctx.delQueue.clear( s.dev.ctx );
	}
	cx.eq( countAlive( "Pipeline" ), size_t( 0 ), "pipelines left at the end" );
	cx.eq( countAlive( "PipelineLayout" ), size_t( 0 ), "pipeline layouts left at the end" );
	cx.eq( countAlive( "DescriptorSetLayout" ), size_t( 0 ), "set layouts left at the end" );
	cx.eq( countAlive( "DescriptorPool" ), size_t( 0 ), "pools left at the end" );
	cx.require( world().errors.empty(), "nothing is destroyed twice" );
}
